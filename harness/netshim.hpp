#pragma once
// Observes and scripts the server side of TCP connections at the socket calls.
// The accepted handle is tied to the script of the connection that the driver has just made:
// whenever the server asks for input and none is there, the next scripted segment is sent
// by the client end, so that the driver decides how the byte stream is cut.
#include "util.hpp"
#include <arpa/inet.h>
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>

namespace net {
	template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
	inline void emit(const std::string& s) {
		static std::mutex m;
		std::lock_guard<std::mutex> g(m);
		std::string l = s + "\n";
		size_t o = 0;
		while (o < l.size()) {
			const auto n = syscall(SYS_write, 1, l.data() + o, l.size() - o);
			if (n <= 0) break;
			o += n;
		}
	}
	struct Script {
		std::mutex mtx;
		std::string tag;               // printed before each event, with a space
		int cfd = -1, sfd = -1;
		std::deque<std::string> segs;
		std::string fin = "eof";       // what happens after the last segment: eof, rst, silent
		bool finDone = false, over = false;
		size_t partial = 0;            // largest number of bytes a send takes, 0 = everything
		uint64_t rnd = 1;
		// called instead of fin when set: 0 go on to fin, 1 look again, 2 report a timeout (after a short rest)
		std::function<int(Script&)> idle;
		unsigned jitter = 0;           // up to this many microseconds pass after each send
		uint64_t jrnd = 7;
		long failLeft = -1;            // sends fail after this many more bytes, -1 = never
		int failErr = EPIPE;
		bool note = false;             // report sends that really fail as well
		void log(const std::string& s) { emit(tag + s); }
	};
	typedef std::shared_ptr<Script> ScriptPtr;
	inline std::mutex mapMtx;
	inline std::map<int, ScriptPtr> byHandle;
	inline std::map<int, ScriptPtr> byPort;      // client port -> script, before it is accepted
	inline std::atomic<int> watched { 0 };
	inline ScriptPtr find(int fd) {
		if (!watched) return nullptr;
		std::lock_guard<std::mutex> l(mapMtx);
		auto i = byHandle.find(fd);
		return i == byHandle.end() ? nullptr : i->second;
	}
	inline int pending(int fd) { int n = 0; return ioctl(fd, FIONREAD, &n) ? -1 : n; }
	inline bool readable(int fd, int ms) {
		struct pollfd p { fd, POLLIN, 0 };
		static auto f = real<int(*)(struct pollfd*, nfds_t, int)>("poll");
		return f(&p, 1, ms) > 0;
	}
	inline ssize_t rawsend(int fd, const char* p, size_t n) {
		static auto f = real<ssize_t(*)(int, const void*, size_t, int)>("send");
		size_t o = 0;
		while (o < n) {
			const auto k = f(fd, p + o, n - o, MSG_NOSIGNAL);
			if (k < 0 && errno == EINTR) continue;
			if (k <= 0) return -1;
			o += k;
		}
		return n;
	}
	// gets the handle ready for a read; false: report a timeout without reading
	inline bool prepare(int fd, ScriptPtr s) {
		std::unique_lock<std::mutex> l(s->mtx);
		for (;;) {
			if (s->finDone || pending(fd) != 0 || readable(fd, 0)) return !(s->finDone && s->fin == "silent");
			if (!s->segs.empty()) {
				auto seg = s->segs.front();
				s->segs.pop_front();
				s->log("feed " + std::to_string(seg.size()));
				if (rawsend(s->cfd, seg.data(), seg.size()) < 0) s->log("lost");
				readable(fd, 5000);
				return true;
			}
			if (s->idle) {
				const int what = s->idle(*s);
				if (what == 1) continue;
				if (what == 2) {
					l.unlock();
					usleep(300);
					return false;
				}
			}
			s->log("wait");
			s->finDone = true;
			s->log("fin");
			if (s->fin == "eof") shutdown(s->cfd, SHUT_WR);
			else if (s->fin == "rst") {
				struct linger lg { 1, 0 };
				setsockopt(s->cfd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
				close(s->cfd);
				s->cfd = -1;
			} else return false;
			readable(fd, 5000);
			return true;
		}
	}
	inline ScriptPtr script(int clientfd) {
		auto s = std::make_shared<Script>();
		s->cfd = clientfd;
		return s;
	}
	// connects to a server of this process; the script is in place before the server can read
	inline ScriptPtr dial(int port, ScriptPtr s) {
		s->cfd = socket(AF_INET, SOCK_STREAM, 0);
		int one = 1;
		setsockopt(s->cfd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
		sockaddr_in a {};
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		if (bind(s->cfd, (sockaddr*)&a, sizeof(a))) { perror("bind"); _exit(9); }
		socklen_t al = sizeof(a);
		getsockname(s->cfd, (sockaddr*)&a, &al);
		{
			std::lock_guard<std::mutex> l(mapMtx);
			byPort[ntohs(a.sin_port)] = s;
			watched = 1;
		}
		sockaddr_in d {};
		d.sin_family = AF_INET;
		d.sin_port = htons(port);
		d.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		// nothing is fed before the connection stands; it can be over all the same when this thread gets to see it
		std::lock_guard<std::mutex> l(s->mtx);
		if (connect(s->cfd, (sockaddr*)&d, sizeof(d)) && errno != ECONNABORTED && errno != ECONNRESET && errno != EPIPE) { perror("connect"); _exit(9); }
		return s;
	}
	inline void accepted(int fd) {
		if (fd < 0 || !watched) return;
		sockaddr_in a {};
		socklen_t al = sizeof(a);
		if (getpeername(fd, (sockaddr*)&a, &al)) return;
		std::lock_guard<std::mutex> l(mapMtx);
		auto i = byPort.find(ntohs(a.sin_port));
		if (i == byPort.end()) { byHandle.erase(fd); return; }
		byHandle[fd] = i->second;
		i->second->sfd = fd;
		byPort.erase(i);
	}
	inline void closed(int fd) {
		if (!watched) return;
		std::lock_guard<std::mutex> l(mapMtx);
		byHandle.erase(fd);
	}
	// what a send is allowed to take; 0: interrupted
	inline size_t share(ScriptPtr s, size_t n) {
		std::lock_guard<std::mutex> l(s->mtx);
		if (s->failLeft >= 0) n = std::min(n, (size_t)s->failLeft);
		if (!s->partial || n <= 1) return n;
		s->rnd = s->rnd * 6364136223846793005ull + 1442695040888963407ull;
		const auto r = (s->rnd >> 33);
		if (r % 7 == 0) return 0;
		return std::min(n, (size_t)(1 + r % s->partial));
	}
	// does this send fail? (errno is set)
	inline bool failing(ScriptPtr s) {
		std::lock_guard<std::mutex> l(s->mtx);
		if (s->failLeft) return false;
		s->log("fail");
		errno = s->failErr;
		return true;
	}
	inline void lost(ScriptPtr s, ssize_t r) {
		if (r >= 0) return;
		std::lock_guard<std::mutex> l(s->mtx);
		s->log("fail");
	}
	inline void sent(ScriptPtr s, const void* p, ssize_t n) {
		if (n <= 0) return;
		unsigned rest = 0;
		{
			std::lock_guard<std::mutex> l(s->mtx);
			if (s->failLeft > 0) s->failLeft -= std::min((long)n, s->failLeft);
			s->log("s " + drv::hex(std::string((const char*)p, n)));
			if (s->jitter) {
				s->jrnd = s->jrnd * 6364136223846793005ull + 1442695040888963407ull;
				rest = (s->jrnd >> 33) % s->jitter;
			}
		}
		if (rest) usleep(rest);
	}
}

extern "C" {
int accept(int fd, struct sockaddr* a, socklen_t* l) {
	static auto f = net::real<int(*)(int, struct sockaddr*, socklen_t*)>("accept");
	const int r = f(fd, a, l);
	const int e = errno;
	net::accepted(r);
	errno = e;
	return r;
}
int accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) {
	static auto f = net::real<int(*)(int, struct sockaddr*, socklen_t*, int)>("accept4");
	const int r = f(fd, a, l, fl);
	const int e = errno;
	net::accepted(r);
	errno = e;
	return r;
}
int close(int fd) {
	static auto f = net::real<int(*)(int)>("close");
	net::closed(fd);
	return f(fd);
}
ssize_t recv(int fd, void* b, size_t n, int fl) {
	static auto f = net::real<ssize_t(*)(int, void*, size_t, int)>("recv");
	if (auto s = net::find(fd)) if (!net::prepare(fd, s)) { errno = EAGAIN; return -1; }
	return f(fd, b, n, fl);
}
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) {
	static auto f = net::real<ssize_t(*)(int, void*, size_t, int, struct sockaddr*, socklen_t*)>("recvfrom");
	if (auto s = net::find(fd)) if (!net::prepare(fd, s)) { errno = EAGAIN; return -1; }
	return f(fd, b, n, fl, a, l);
}
ssize_t recvmsg(int fd, struct msghdr* m, int fl) {
	static auto f = net::real<ssize_t(*)(int, struct msghdr*, int)>("recvmsg");
	if (auto s = net::find(fd)) if (!net::prepare(fd, s)) { errno = EAGAIN; return -1; }
	return f(fd, m, fl);
}
ssize_t read(int fd, void* b, size_t n) {
	static auto f = net::real<ssize_t(*)(int, void*, size_t)>("read");
	if (auto s = net::find(fd)) if (!net::prepare(fd, s)) { errno = EAGAIN; return -1; }
	return f(fd, b, n);
}
ssize_t send(int fd, const void* b, size_t n, int fl) {
	static auto f = net::real<ssize_t(*)(int, const void*, size_t, int)>("send");
	auto s = net::find(fd);
	if (!s) return f(fd, b, n, fl);
	if (net::failing(s)) return -1;
	const auto k = net::share(s, n);
	if (n && !k) { errno = EINTR; return -1; }
	const auto r = f(fd, b, k, fl);
	const int e = errno;
	net::sent(s, b, r);
	if (s->note) net::lost(s, r);
	errno = e;
	return r;
}
ssize_t write(int fd, const void* b, size_t n) {
	static auto f = net::real<ssize_t(*)(int, const void*, size_t)>("write");
	auto s = net::find(fd);
	if (!s) return f(fd, b, n);
	if (net::failing(s)) return -1;
	const auto k = net::share(s, n);
	if (n && !k) { errno = EINTR; return -1; }
	const auto r = f(fd, b, k);
	const int e = errno;
	net::sent(s, b, r);
	if (s->note) net::lost(s, r);
	errno = e;
	return r;
}
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) {
	static auto f = net::real<ssize_t(*)(int, const void*, size_t, int, const struct sockaddr*, socklen_t)>("sendto");
	auto s = net::find(fd);
	if (s && net::failing(s)) return -1;
	const auto r = f(fd, b, n, fl, a, l);
	const int e = errno;
	if (s) net::sent(s, b, r);
	errno = e;
	return r;
}
static void netIov(net::ScriptPtr s, const struct iovec* v, size_t c, ssize_t r) {
	for (size_t i = 0; i < c && r > 0; i++) {
		const auto k = std::min((ssize_t)v[i].iov_len, r);
		net::sent(s, v[i].iov_base, k);
		r -= k;
	}
}
ssize_t sendmsg(int fd, const struct msghdr* m, int fl) {
	static auto f = net::real<ssize_t(*)(int, const struct msghdr*, int)>("sendmsg");
	auto s = net::find(fd);
	if (s && net::failing(s)) return -1;
	const auto r = f(fd, m, fl);
	const int e = errno;
	if (s) netIov(s, m->msg_iov, m->msg_iovlen, r);
	errno = e;
	return r;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
	static auto f = net::real<ssize_t(*)(int, const struct iovec*, int)>("writev");
	auto s = net::find(fd);
	if (s && net::failing(s)) return -1;
	const auto r = f(fd, v, c);
	const int e = errno;
	if (s) netIov(s, v, c, r);
	errno = e;
	return r;
}
// a server that asks for readiness first gets the same treatment
int poll(struct pollfd* p, nfds_t n, int t) {
	static auto f = net::real<int(*)(struct pollfd*, nfds_t, int)>("poll");
	for (nfds_t i = 0; i < n; i++)
		if (p[i].events & POLLIN) if (auto s = net::find(p[i].fd)) if (!net::prepare(p[i].fd, s)) return 0;
	return f(p, n, t);
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) {
	static auto f = net::real<int(*)(int, fd_set*, fd_set*, fd_set*, struct timeval*)>("select");
	if (r && net::watched) for (int i = 0; i < n; i++)
		if (FD_ISSET(i, r)) if (auto s = net::find(i)) if (!net::prepare(i, s)) { FD_ZERO(r); return 0; }
	return f(n, r, w, e, t);
}
}
