// TCP connections and listening sockets, object by object; the peers are plain sockets of the driver
#include "util.hpp"
#include "core/network/network.hpp"
#include "core/network/tcp/listener.hpp"
#include <arpa/inet.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <dirent.h>
#include <dlfcn.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <thread>

using namespace drv;
using namespace Lambda::Network;
using namespace Lambda::Network::TCP;
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
typedef std::chrono::steady_clock Clock;
static long since(Clock::time_point t) { return std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now() - t).count(); }

// ---------------------------------------------------------------- what the library's calls meet
struct Fault { int err = 0, times = 0; };
static std::mutex fm;
static std::set<int> ours;                 // accepted handles
static Fault onRecv, onSend, onAccept;
static std::string hit = "no";
static size_t shortBy = 0;                 // sends take at most this much
static uint64_t rnd = 1;
static std::atomic<int> badClose { 0 };
// a call of a watched kind is held until the gate opens, or for a while
static std::atomic<int> gateKind { 0 };    // 1 recv, 2 send
static std::atomic<bool> gateIn { false }, gateOpen { false };

static bool isOurs(int fd) { std::lock_guard l(fm); return ours.count(fd); }
static void gate(int kind) {
	int k = kind;
	if (!gateKind.compare_exchange_strong(k, 0)) return;
	gateIn = true;
	for (int i = 0; i < 300 && !gateOpen; i++) usleep(1000);
}
// true: the call fails with errno set
static bool faulty(Fault& f) {
	std::lock_guard l(fm);
	if (!f.times) return false;
	f.times--;
	if (f.err != EINTR && f.err != ECONNABORTED && f.err != EMFILE) hit = f.err == ECONNRESET ? "reset" : "err";
	errno = f.err;
	return true;
}
static size_t share(size_t n) {
	std::lock_guard l(fm);
	if (!shortBy || n < 2) return n;
	rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
	return std::min(n, (size_t)(1 + (rnd >> 33) % shortBy));
}
extern "C" {
int accept(int fd, struct sockaddr* a, socklen_t* l) {
	static auto f = real<int(*)(int, struct sockaddr*, socklen_t*)>("accept");
	if (faulty(onAccept)) return -1;
	gate(3);
	const int r = f(fd, a, l), e = errno;
	if (r >= 0) { std::lock_guard g(fm); ours.insert(r); }
	errno = e;
	return r;
}
int accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) {
	static auto f = real<int(*)(int, struct sockaddr*, socklen_t*, int)>("accept4");
	if (faulty(onAccept)) return -1;
	gate(3);
	const int r = f(fd, a, l, fl), e = errno;
	if (r >= 0) { std::lock_guard g(fm); ours.insert(r); }
	errno = e;
	return r;
}
int close(int fd) {
	static auto f = real<int(*)(int)>("close");
	{ std::lock_guard g(fm); ours.erase(fd); }
	const int r = f(fd);
	if (r) badClose++;
	return r;
}
ssize_t recv(int fd, void* b, size_t n, int fl) {
	static auto f = real<ssize_t(*)(int, void*, size_t, int)>("recv");
	if (isOurs(fd)) { if (faulty(onRecv)) return -1; gate(1); }
	return f(fd, b, n, fl);
}
ssize_t read(int fd, void* b, size_t n) {
	static auto f = real<ssize_t(*)(int, void*, size_t)>("read");
	if (isOurs(fd)) { if (faulty(onRecv)) return -1; gate(1); }
	return f(fd, b, n);
}
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) {
	static auto f = real<ssize_t(*)(int, void*, size_t, int, struct sockaddr*, socklen_t*)>("recvfrom");
	if (isOurs(fd)) { if (faulty(onRecv)) return -1; gate(1); }
	return f(fd, b, n, fl, a, l);
}
ssize_t send(int fd, const void* b, size_t n, int fl) {
	static auto f = real<ssize_t(*)(int, const void*, size_t, int)>("send");
	if (!isOurs(fd)) return f(fd, b, n, fl);
	if (faulty(onSend)) return -1;
	gate(2);
	const auto r = f(fd, b, share(n), fl);
	const int e = errno;
	if (shortBy) std::this_thread::yield();
	errno = e;
	return r;
}
ssize_t write(int fd, const void* b, size_t n) {
	static auto f = real<ssize_t(*)(int, const void*, size_t)>("write");
	if (!isOurs(fd)) return f(fd, b, n);
	if (faulty(onSend)) return -1;
	gate(2);
	return f(fd, b, share(n));
}
}

// ---------------------------------------------------------------- peers
static uint8_t patt(int k, size_t i) { return (uint8_t)((i * 2654435761u >> 11) ^ (i >> 3) ^ (k * 37)); }
struct Peer { int fd = -1; int port = 0; size_t sent = 0, taken = 0, wrote = 0, got = 0; };
static std::map<int, Peer> peers;              // by number
static std::map<std::string, std::unique_ptr<Connection>> C;
static std::map<std::string, int> sockOf;      // slot -> number of its socket
static std::map<std::string, std::unique_ptr<ListenSocket>> L;
static std::map<int, int> portOf;              // symbolic port -> real one
static std::unique_ptr<ListenSocket> host;
static int hostPort = 0, count = 0;
static int baseFds = 0;

static int openFds() {
	int n = 0;
	if (auto d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
	return n;
}
// every process takes ports of its own, below those the system gives to clients
static int freePort() {
	static int block = -1, next = 0;
	while (block < 0) {
		static int turn = getpid();
		const int b = turn++ % 20;
		const int u = socket(AF_UNIX, SOCK_STREAM, 0);
		sockaddr_un a {};
		a.sun_family = AF_UNIX;
		const auto name = "netdrv-ports-" + std::to_string(b);
		memcpy(a.sun_path + 1, name.data(), name.size());
		if (bind(u, (sockaddr*)&a, sizeof(sa_family_t) + 1 + name.size()) == 0) block = b;
		else { close(u); usleep(1000); }
	}
	for (;;) {
		const int port = 12000 + block * 1000 + next;
		next = (next + 1) % 1000;
		const int s = socket(AF_INET, SOCK_STREAM, 0);
		sockaddr_in a {};
		a.sin_family = AF_INET;
		a.sin_port = htons(port);
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		const bool free = bind(s, (sockaddr*)&a, sizeof(a)) == 0 && listen(s, 1) == 0;
		close(s);
		if (free) return port;
	}
}
static int dial(int port, int& mine) {
	int s = socket(AF_INET, SOCK_STREAM, 0);
	int one = 1;
	setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
	sockaddr_in d {};
	d.sin_family = AF_INET;
	d.sin_port = htons(port);
	d.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (connect(s, (sockaddr*)&d, sizeof(d))) { close(s); return -1; }
	sockaddr_in a {};
	socklen_t l = sizeof(a);
	getsockname(s, (sockaddr*)&a, &l);
	mine = ntohs(a.sin_port);
	return s;
}
static void hangup(Peer& p, bool rst) {
	if (p.fd < 0) return;
	if (rst) { struct linger lg { 1, 0 }; setsockopt(p.fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg)); }
	close(p.fd);
	p.fd = -1;
}
static bool sendAll(int fd, const std::vector<uint8_t>& d) {
	size_t o = 0;
	while (o < d.size()) {
		const auto n = ::send(fd, d.data() + o, d.size() - o, MSG_NOSIGNAL);
		if (n <= 0) return false;
		o += n;
	}
	return true;
}
static void wipe() {
	C.clear(); sockOf.clear(); L.clear(); portOf.clear();
	for (auto& [k, p] : peers) hangup(p, true);
	peers.clear();
	std::lock_guard l(fm);
	onRecv = onSend = onAccept = {};
	shortBy = 0;
	hit = "no";
	gateKind = 0;
}
static const char* tf(bool b) { return b ? "true" : "false"; }
static std::unique_ptr<Connection> fresh(int& k, bool& same, uint32_t rcv, uint32_t snd) {
	k = ++count;
	auto& p = peers[k];
	p.fd = dial(hostPort, p.port);
	if (p.fd < 0) _exit(9);
	auto c = host->acceptConnection();
	if (!c.has_value()) return nullptr;
	auto r = std::make_unique<Connection>(std::move(c.value()));
	same = r->info().remoteAddr.port == p.port && r->info().remoteAddr.hostname == "127.0.0.1" && r->info().hostPort == hostPort;
	r->setTimeouts(rcv, SetTimeoutsDirection::Receive);
	r->setTimeouts(snd, SetTimeoutsDirection::Send);
	return r;
}
// the result of a read as text: kind, bytes, whether they are the next ones, milliseconds, error code
static std::string take(Connection& c, int k, size_t n) {
	const auto t = Clock::now();
	std::string kind;
	size_t g = 0;
	bool same = true;
	int err = 0;
	try {
		const auto b = c.read(n);
		kind = b.empty() ? "empty" : "data";
		g = b.size();
		auto& p = peers[k];
		for (size_t i = 0; i < g; i++) same &= b[i] == patt(k, p.taken + i);
		p.taken += g;
	} catch (const NetworkError& e) { kind = "net"; err = e.osError(); }
	catch (const std::exception&) { kind = "throw"; }
	return kind + " " + std::to_string(g) + " " + tf(same) + " " + std::to_string(since(t)) + " " + std::to_string(err);
}
static std::vector<uint8_t> out(Peer& p, int k, size_t n) {
	std::vector<uint8_t> d(n);
	for (size_t i = 0; i < n; i++) d[i] = patt(k + 100, p.wrote + i);
	return d;
}
// what has come to the peer: bytes, whether they are the right ones, whether the end was seen
static std::string look(int k, int ms, size_t want) {
	auto& p = peers[k];
	size_t g = 0;
	bool same = true, eof = false;
	std::vector<uint8_t> b(65536);
	const auto t = Clock::now();
	while (p.fd >= 0) {
		struct pollfd q { p.fd, POLLIN, 0 };
		const int left = (g < want ? 8000 : ms) - since(t);
		if (poll(&q, 1, left > 0 ? left : 0) <= 0) break;
		const auto n = ::recv(p.fd, b.data(), b.size(), 0);
		if (n <= 0) { eof = true; break; }
		for (ssize_t i = 0; i < n; i++) same &= b[i] == patt(k + 100, p.got + i);
		p.got += n; g += n;
	}
	return std::to_string(g) + " " + tf(same) + " " + tf(eof);
}

static std::string apply(const std::vector<std::string>& w) {
	const auto& op = w[0];
	auto num = [&](size_t i) { return std::stol(w.at(i)); };
	auto gotHit = [&]() { std::lock_guard l(fm); auto h = hit; hit = "no"; onRecv = onSend = onAccept = {}; return h; };
	if (op == "case") {
		wipe();
		count = 0;
		if (!host) {
			for (int i = 0; i < 50 && !host; i++) {
				hostPort = freePort();
				try { host = std::make_unique<ListenSocket>(ListenConfig { .allowPortReuse = true, .port = (uint16_t)hostPort }); } catch (...) {}
			}
			if (!host) _exit(9);
		}
		baseFds = openFds();
		badClose = 0;
		return "done";
	}
	if (op == "fds") {
		int mine = 0;
		for (auto& [k, p] : peers) mine += p.fd >= 0;
		return std::to_string(openFds() - baseFds - mine) + " " + std::to_string(badClose);
	}
	if (op == "conn") {
		int k;
		bool same = false;
		auto c = fresh(k, same, num(2), num(3));
		if (!c) return "none 0 false";
		c->flags.closeOnTimeout = w[4] == "1";
		c->flags.throwOnDisconnect = w[5] == "1";
		C[w[1]] = std::move(c);
		sockOf[w[1]] = k;
		return "ok " + std::to_string(k) + " " + tf(same);
	}
	// ---- the peer
	if (op == "psend") {
		auto& p = peers[num(1)];
		std::vector<uint8_t> d(num(2));
		for (size_t i = 0; i < d.size(); i++) d[i] = patt(num(1), p.sent + i);
		p.sent += d.size();
		return p.fd >= 0 && sendAll(p.fd, d) ? "done" : "lost";
	}
	if (op == "peof") { shutdown(peers[num(1)].fd, SHUT_WR); return "done"; }
	if (op == "prst") { hangup(peers[num(1)], true); return "done"; }
	if (op == "look") return look(num(1), num(2), num(3));
	// ---- the connection
	if (op == "read") { auto r = take(*C.at(w[1]), sockOf[w[1]], num(2)); return r + " " + gotHit(); }
	if (op == "read0") {
		const auto t = Clock::now();
		try { auto b = C.at(w[1])->read(); auto& p = peers[sockOf[w[1]]]; bool same = true;
			for (size_t i = 0; i < b.size(); i++) same &= b[i] == patt(sockOf[w[1]], p.taken + i);
			p.taken += b.size();
			return std::string(b.empty() ? "empty " : "data ") + std::to_string(b.size()) + " " + tf(same) + " " + std::to_string(since(t)) + " 0 " + gotHit();
		} catch (const NetworkError& e) { return "net 0 true 0 " + std::to_string(e.osError()) + " " + gotHit(); }
		catch (const std::exception&) { return "throw 0 true 0 0 " + gotHit(); }
	}
	if (op == "write") {
		const int k = sockOf[w[1]];
		auto& p = peers[k];
		const size_t n = num(2);
		const auto t = Clock::now();
		// a peer that does not read would block large writes: this one reads while they last
		std::atomic<bool> over { false };
		std::string kind = "done";
		std::thread th;
		std::vector<uint8_t> d = out(p, k, n);
		if (w.size() > 3) { // nobody reads
			try { C.at(w[1])->write(d); } catch (const std::exception&) { kind = "throw"; }
		} else {
			std::string seen;
			size_t g = 0;
			bool same = true;
			if (p.fd >= 0) th = std::thread([&]() {
				std::vector<uint8_t> b(65536);
				while (g < n) {
					struct pollfd q { p.fd, POLLIN, 0 };
					if (poll(&q, 1, 5) <= 0) { if (over) break; continue; }
					const auto r = ::recv(p.fd, b.data(), std::min(b.size(), n - g), 0);
					if (r <= 0) break;
					for (ssize_t i = 0; i < r; i++) same &= b[i] == patt(k + 100, p.got + g + i);
					g += r;
				}
			});
			try { C.at(w[1])->write(d); } catch (const std::exception&) { kind = "throw"; }
			// everything a finished write stands for arrives
			if (kind == "done" && p.fd >= 0) for (int i = 0; i < 8000 && g < n; i++) usleep(1000);
			over = true;
			if (th.joinable()) th.join();
			p.got += g;
			p.wrote += kind == "done" ? n : g;
			return kind + " " + std::to_string(g) + " " + tf(same) + " " + std::to_string(since(t)) + " " + gotHit();
		}
		return kind + " 0 true " + std::to_string(since(t)) + " " + gotHit();
	}
	if (op == "open") return tf(C.at(w[1])->isOpen());
	if (op == "end") { C.at(w[1])->end(); return "done"; }
	if (op == "drop") { C.erase(w[1]); return "done"; }
	if (op == "move") { auto t = std::make_unique<Connection>(std::move(*C.at(w[2]))); C[w[1]] = std::move(t); sockOf[w[1]] = sockOf[w[2]]; return "done"; }
	if (op == "assign") { auto& x = *C.at(w[2]); *C.at(w[1]) = std::move(x); sockOf[w[1]] = sockOf[w[2]]; return "done"; }
	if (op == "flags") { C.at(w[1])->flags.closeOnTimeout = w[2] == "1"; C.at(w[1])->flags.throwOnDisconnect = w[3] == "1"; return "done"; }
	if (op == "info") {
		auto& c = *C.at(w[1]);
		const auto& i = c.info();
		auto& p = peers[sockOf[w[1]]];
		return std::string(tf((p.fd < 0 || i.remoteAddr.port == p.port) && i.remoteAddr.hostname == "127.0.0.1" && i.hostPort == hostPort)) + " " + std::to_string(i.timeouts.receive) + " "
			+ std::to_string(i.timeouts.send) + " " + tf(c.flags.closeOnTimeout) + " " + tf(c.flags.throwOnDisconnect);
	}
	if (op == "tmo") {
		try {
			if (w[3] == "b") C.at(w[1])->setTimeouts(num(2));
			else C.at(w[1])->setTimeouts(num(2), w[3] == "r" ? SetTimeoutsDirection::Receive : w[3] == "s" ? SetTimeoutsDirection::Send : SetTimeoutsDirection::Both);
			return "done";
		} catch (const std::exception&) { return "throw"; }
	}
	if (op == "inj") { std::lock_guard l(fm); (w[1] == "recv" ? onRecv : w[1] == "send" ? onSend : onAccept) = Fault { (int)num(2), (int)num(3) }; return "done"; }
	if (op == "short") { std::lock_guard l(fm); shortBy = num(1); rnd = num(2); return "done"; }
	// ---- several threads
	if (op == "unblock") { // a pending read is ended by another thread
		auto& c = *C.at(w[1]);
		const int k = sockOf[w[1]];
		std::string r;
		std::thread th([&]() { r = take(c, k, 100); });
		usleep(num(2));
		const auto t = Clock::now();
		c.end();
		th.join();
		return words(r)[0] + " " + std::to_string(since(t));
	}
	if (op == "unblockw") { // a pending write is
		auto& c = *C.at(w[1]);
		std::string r = "done";
		std::thread th([&]() { try { c.write(std::vector<uint8_t>(64 << 20)); } catch (const std::exception&) { r = "throw"; } });
		usleep(num(2));
		const auto t = Clock::now();
		c.end();
		th.join();
		return r + " " + std::to_string(since(t));
	}
	if (op == "ends") { // many at once
		auto& c = *C.at(w[1]);
		std::vector<std::thread> ths;
		std::atomic<bool> go { false };
		for (int i = 0; i < 4; i++) ths.emplace_back([&]() { while (!go) std::this_thread::yield(); c.end(); });
		go = true;
		for (auto& t : ths) t.join();
		return "done";
	}
	if (op == "duplex") { // a write while a read is pending, then the read gets its data
		auto& c = *C.at(w[1]);
		const int k = sockOf[w[1]];
		std::string r;
		std::thread th([&]() { r = take(c, k, 4096); });
		usleep(num(2));
		auto& p = peers[k];
		auto d = out(p, k, 1000);
		const auto t = Clock::now();
		std::string kind = "done";
		try { c.write(d); } catch (const std::exception&) { kind = "throw"; }
		const auto ms = since(t);
		p.wrote += 1000;
		auto seen = look(k, 0, 1000);
		std::vector<uint8_t> in(500);
		for (size_t i = 0; i < in.size(); i++) in[i] = patt(k, p.sent + i);
		p.sent += in.size();
		sendAll(p.fd, in);
		th.join();
		return kind + " " + std::to_string(ms) + " " + seen + " " + r;
	}
	if (op == "writers") { // threads, writes per thread, size: each write stays in one piece
		auto& c = *C.at(w[1]);
		const int k = sockOf[w[1]], T = num(2), N = num(3), S = num(4);
		auto& p = peers[k];
		const size_t total = (size_t)T * N * S;
		std::vector<uint8_t> all;
		std::thread rd([&]() {
			std::vector<uint8_t> b(65536);
			while (all.size() < total) {
				struct pollfd q { p.fd, POLLIN, 0 };
				if (poll(&q, 1, 8000) <= 0) break;
				const auto n = ::recv(p.fd, b.data(), b.size(), 0);
				if (n <= 0) break;
				all.insert(all.end(), b.begin(), b.begin() + n);
			}
		});
		std::vector<std::thread> ths;
		std::atomic<bool> go { false };
		std::atomic<int> failed { 0 };
		for (int t = 0; t < T; t++) ths.emplace_back([&, t]() {
			while (!go) std::this_thread::yield();
			for (int i = 0; i < N; i++) {
				std::vector<uint8_t> d(S, (uint8_t)(t * 16 + i % 16));
				d[0] = (uint8_t)(128 + t);
				try { c.write(d); } catch (const std::exception&) { failed++; }
			}
		});
		go = true;
		for (auto& t : ths) t.join();
		rd.join();
		bool same = all.size() == total && !failed;
		std::map<int, int> next;
		for (size_t o = 0; same && o < total; o += S) {
			const int t = all[o] - 128;
			if (t < 0 || t >= T) { same = false; break; }
			const int i = next[t]++;
			for (int j = 1; j < S; j++) same &= all[o + j] == (uint8_t)(t * 16 + i % 16);
		}
		return std::string(tf(same)) + " " + std::to_string(all.size());
	}
	if (op == "steal") { // kind: a call is on its way to the system while the connection ends and a new one is made
		const int kind = num(2);
		const auto slot = w[1];
		auto& c = *C.at(slot);
		const int k = sockOf[slot];
		gateIn = gateOpen = false;
		gateKind = kind;
		std::thread th([&]() {
			try { if (kind == 1) (void)c.read(100); else c.write(std::vector<uint8_t>(50, 'x')); } catch (const std::exception&) {}
		});
		for (int i = 0; i < 2000 && !gateIn; i++) usleep(1000);
		std::atomic<bool> ended { false };
		std::unique_ptr<Connection> next;
		int nk = 0;
		bool same = true;
		std::thread en([&]() { c.end(); ended = true; });
		// a new connection as soon as that is over; it could get the same handle
		for (int i = 0; i < 100 && !ended; i++) usleep(1000);
		next = fresh(nk, same, 1500, 1500);
		auto& p = peers[nk];
		std::vector<uint8_t> in(60);
		for (size_t i = 0; i < in.size(); i++) in[i] = patt(nk, i);
		sendAll(p.fd, in);
		for (int i = 0; i < 500; i++) { struct pollfd q { p.fd, POLLOUT, 0 }; if (poll(&q, 1, 1) > 0) break; }
		gateOpen = true;
		th.join();
		en.join();
		size_t got = 0;
		while (got < 60) {
			auto r = words(take(*next, nk, 100));
			if (r[0] != "data" || r[2] != "true") break;
			got += std::stoul(r[1]);
		}
		same &= got == 60;
		auto d = out(p, nk, 40);
		try { next->write(d); } catch (const std::exception&) { same = false; }
		p.wrote += 40;
		auto seen = words(look(nk, 10, 40));
		same &= seen[0] == "40" && seen[1] == "true";
		next.reset();
		hangup(p, true);
		peers.erase(nk);
		(void)k;
		gateKind = 0;
		return tf(same);
	}
	// ---- listening sockets
	if (op == "lopen") { // slot, symbolic port, reuse, rcv, snd
		const int sym = num(2);
		const bool known = portOf.count(sym);
		for (int i = 0;; i++) {
			if (!known) portOf[sym] = freePort();
			try {
				L[w[1]] = std::make_unique<ListenSocket>(ListenConfig { w[3] == "1", (uint16_t)portOf[sym], { (uint32_t)num(4), (uint32_t)num(5) } });
				return "ok";
			} catch (const std::exception&) {
				if (known || i > 20) return "throw";
			}
		}
	}
	if (op == "dial") {
		const int sym = num(1);
		if (!portOf.count(sym)) portOf[sym] = freePort();
		auto& p = peers[++count];
		p.fd = dial(portOf[sym], p.port);
		if (p.fd < 0) { peers.erase(count); return "refused 0"; }
		return "ok " + std::to_string(count);
	}
	if (op == "accept" || op == "baccept" || op == "saccept") { // baccept: a client (port w[3]) comes while it waits; saccept: it is stopped while it waits
		auto& l = *L.at(w[1]);
		std::string r;
		std::unique_ptr<Connection> conn;
		int k = 0;
		long ms = 0;
		auto body = [&]() {
			try {
				auto c = l.acceptConnection();
				if (!c.has_value()) { r = "none 0 true 0 0"; return; }
				const auto& i = c.value().info();
				k = -1;
				for (auto& [n, p] : peers) if (p.fd >= 0 && p.port == i.remoteAddr.port) k = n;
				r = "conn " + std::to_string(k) + " " + tf(i.remoteAddr.hostname == "127.0.0.1" && i.hostPort == l.getConfig().port && c.value().isOpen() && i.remoteAddr.transport == ConnectionTransport::TCP)
					+ " " + std::to_string(i.timeouts.receive) + " " + std::to_string(i.timeouts.send);
				conn = std::make_unique<Connection>(std::move(c.value()));
			} catch (const NetworkError& e) { r = "net 0 true " + std::to_string(e.osError()) + " 0"; }
			catch (const std::exception&) { r = "throw 0 true 0 0"; }
		};
		std::string made;
		if (op == "accept") body();
		else {
			Peer* np = nullptr;
			std::thread th(body);
			usleep(20000);
			const auto t = Clock::now();
			if (op == "baccept") {
				// the number is given before the accept can look for it
				Peer q;
				const int s = dial(portOf[num(3)], q.port);
				// (the connection that comes out is matched by its port below)
				q.fd = s;
				th.join();
				np = &(peers[++count] = q);
				if (k == -1 && conn && conn->info().remoteAddr.port == np->port) k = count;
				auto x = words(r);
				r = x[0] + " " + std::to_string(k) + " " + x[2] + " " + x[3] + " " + x[4];
			} else { l.stop(); th.join(); }
			ms = since(t);
		}
		// the handed out connection is a working one
		bool works = true;
		if (conn && k > 0) {
			auto& p = peers[k];
			std::vector<uint8_t> in(10);
			for (size_t i = 0; i < in.size(); i++) in[i] = patt(k, i);
			sendAll(p.fd, in);
			auto x = words(take(*conn, k, 10));
			works = x[0] == "data" && x[2] == "true";
			if (w.size() > 2 && w[2] == "t") { // and does time out
				const auto t = Clock::now();
				auto y = words(take(*conn, k, 10));
				works &= y[0] == "empty" && !conn->isOpen();
				ms = since(t);
			}
		}
		if (k > 0) { conn.reset(); hangup(peers[k], true); }
		conn.reset();
		return r + " " + tf(works) + " " + std::to_string(ms) + " " + gotHit();
	}
	if (op == "lsteal") { // an accept is on its way to the system while its socket is stopped and another one is made
		auto& l = *L.at(w[1]);
		gateIn = gateOpen = false;
		gateKind = 3;
		std::string r = "none";
		std::thread th([&]() {
			try { if (l.acceptConnection().has_value()) r = "conn"; } catch (const std::exception&) { r = "throw"; }
		});
		for (int i = 0; i < 2000 && !gateIn; i++) usleep(1000);
		std::atomic<bool> ended { false };
		std::thread en([&]() { l.stop(); ended = true; });
		for (int i = 0; i < 100 && !ended; i++) usleep(1000);
		std::unique_ptr<ListenSocket> other;
		int port = 0;
		for (int i = 0; i < 20 && !other; i++) {
			port = freePort();
			try { other = std::make_unique<ListenSocket>(ListenConfig { true, (uint16_t)port, { 1500, 1500 } }); } catch (const std::exception&) {}
		}
		if (!other) _exit(9);
		gateOpen = true;
		en.join();
		usleep(20000);
		Peer p;
		p.fd = dial(port, p.port);
		th.join();
		bool same = p.fd >= 0;
		if (r == "none" && same) {
			try {
				auto c = other->acceptConnection();
				same = c.has_value() && c.value().info().remoteAddr.port == p.port && c.value().info().hostPort == port;
			} catch (const std::exception&) { same = false; }
		}
		hangup(p, true);
		return r + " " + tf(same);
	}
	if (op == "crowd") { // several threads accept while clients come, and then the socket is stopped
		auto& l = *L.at(w[1]);
		const int nt = num(2), n = num(3), port = portOf[num(4)];
		std::mutex m;
		std::multiset<int> handed;
		std::set<int> came;
		std::vector<int> fds;
		bool odd = false;
		std::atomic<int> back { 0 };
		std::vector<std::thread> ts;
		for (int i = 0; i < nt; i++) ts.emplace_back([&]() {
			for (;;) {
				try {
					auto c = l.acceptConnection();
					if (!c.has_value()) break;
					std::lock_guard g(m);
					handed.insert(c.value().info().remoteAddr.port);
				} catch (const std::exception&) { std::lock_guard g(m); odd = true; break; }
			}
			back++;
		});
		std::vector<std::thread> ds;
		for (int i = 0; i < 2; i++) ds.emplace_back([&, i]() {
			for (int j = i; j < n; j += 2) {
				int mine = 0;
				const int s = dial(port, mine);
				std::lock_guard g(m);
				if (s < 0) odd = true;
				else { came.insert(mine); fds.push_back(s); }
			}
		});
		for (auto& t : ds) t.join();
		for (int i = 0; i < 8000; i++) { { std::lock_guard g(m); if (handed.size() >= (size_t)n) break; } usleep(1000); }
		const auto t = Clock::now();
		l.stop();
		for (auto& x : ts) x.join();
		const long ms = since(t);
		for (int s : fds) { linger g { 1, 0 }; setsockopt(s, SOL_SOCKET, SO_LINGER, &g, sizeof(g)); close(s); }
		return std::string("done ") + tf(!odd && handed.size() == came.size() && std::set<int>(handed.begin(), handed.end()) == came) + " " + std::to_string(ms);
	}
	if (op == "stop") { L.at(w[1])->stop(); return "done"; }
	if (op == "active") return tf(L.at(w[1])->active());
	if (op == "conf") { const auto& c = L.at(w[1])->getConfig(); return std::string(tf(c.port == portOf[num(2)])) + " " + std::to_string(c.connectionTimeouts.receive) + " " + std::to_string(c.connectionTimeouts.send); }
	if (op == "ldrop") { L.erase(w[1]); return "done"; }
	if (op == "lmove") { auto t = std::make_unique<ListenSocket>(std::move(*L.at(w[2]))); L[w[1]] = std::move(t); return "done"; }
	if (op == "lassign") { auto& x = *L.at(w[2]); *L.at(w[1]) = std::move(x); return "done"; }
	return "?";
}

int main() {
	std::string line;
	while (drv::next(line)) {
		auto w = words(line);
		if (w.empty()) continue;
		drv::out(apply(w));
	}
	wipe();
	return 0;
}
