// One server per process; its clients live elsewhere. What the handler is told goes to a descriptor of its own.
#include "util.hpp"
#include <lambda.hpp>
#include <arpa/inet.h>
#include <chrono>
#include <dirent.h>
#include <map>
#include <mutex>
#include <netinet/in.h>
#include <sys/socket.h>
#include <thread>
using namespace Lambda;

static int ctl = -1;
static void emit(const std::string& s) {
	static std::mutex m;
	std::lock_guard<std::mutex> g(m);
	const std::string l = s + "\n";
	size_t o = 0;
	while (o < l.size()) {
		const auto n = syscall(SYS_write, ctl, l.data() + o, l.size() - o);
		if (n <= 0) break;
		o += n;
	}
}
extern "C" ssize_t write(int fd, const void* b, size_t n) {
	std::this_thread::yield();
	return syscall(SYS_write, fd, b, n);
}
extern "C" int accept(int fd, struct sockaddr* a, socklen_t* l) {
	sockaddr_in p {};
	socklen_t n = sizeof(p);
	const int r = syscall(SYS_accept, fd, &p, &n);
	if (a && l) {
		memcpy(a, &p, std::min(*l, n));
		*l = n;
	}
	if (r >= 0) emit("accepted " + std::string(inet_ntoa(p.sin_addr)) + " " + std::to_string(ntohs(p.sin_port)));
	return r;
}
extern "C" int accept4(int fd, struct sockaddr* a, socklen_t* l, int) { return accept(fd, a, l); }
static int tasks() {
	int n = 0;
	if (auto d = opendir("/proc/self/task")) { while (readdir(d)) n++; closedir(d); }
	return n;
}

static HandlerResponse handle(const HTTP::Request& rq, const RequestContext& ctx) {
	const auto q = [&](const char* k) { return rq.url.searchParams.get(k); };
	const auto tag = q("t"), v = q("v");
	emit("enter " + tag + " " + ctx.contextID + " " + ctx.requestID + " " + ctx.conninfo.remoteAddr.hostname + " " +
		std::to_string(ctx.conninfo.remoteAddr.port) + " " + drv::hex(rq.method.toString()) + " " + drv::hex(rq.url.pathname));
	if (q("n").size()) {
		const std::string x(std::stoul(q("n")), 'x');
		syncout.log({ "[app]", tag, x });
		syncout.error("[app] " + tag + " " + x);
	}
	if (v == "slow") std::this_thread::sleep_for(std::chrono::milliseconds(30));
	if (v == "throw") throw std::runtime_error("oh no" + rq.url.pathname);
	if (v == "throwint") throw 1;
	if (v == "none") return {};
	if (v == "sse" || v == "ssethrow") {
		auto s = ctx.startEventStream();
		s.push(SSE::EventMessage("hi"));
		if (v == "ssethrow") throw std::runtime_error("late");
		s.close();
		return {};
	}
	if (v == "ws" || v == "wsthrow") {
		auto s = ctx.upgrateToWebsocket();
		s.sendMessage(std::string("hi"));
		if (v == "wsthrow") throw std::runtime_error("late");
		return {};
	}
	if (v == "caught") {
		try { ctx.upgrateToWebsocket(); } catch (const std::exception&) { return HTTP::Response(426, "no"); }
		return {};
	}
	HTTP::Response r("ok");
	for (const auto& name : { "X-Request-ID", "x-request-id", "Date", "DATE" })
		if (q("h") == name) r.headers.set(name, "mine");
	if (v.size() == 3 && v[0] >= '2' && v[0] <= '5') r.status = HTTP::Status(std::stoi(v));
	return r;
}

int main(int argc, char** argv) {
	std::map<std::string, std::string> o;
	for (int i = 2; i < argc; i++) {
		const std::string s = argv[i];
		o[s.substr(0, s.find('='))] = s.substr(s.find('=') + 1);
	}
	ctl = std::stoi(argv[1]);
	setvbuf(stdout, nullptr, o["buf"] == "none" ? _IONBF : o["buf"] == "line" ? _IOLBF : _IOFBF, BUFSIZ);
	setvbuf(stderr, nullptr, o["buf"] == "full" ? _IOFBF : o["buf"] == "line" ? _IOLBF : _IONBF, BUFSIZ);
	ServerConfig c;
	c.loglevel.transportEvents = o["t"] == "1";
	c.loglevel.requests = o["r"] == "1";
	c.loglevel.startMessage = o["s"] == "1";
	c.service.useThreadList = o["list"] == "1";
	c.service.connectionTimeouts.receive = 20000;
	c.transport.maxRequestSize = 4096;
	if (o["err"] == "plain") c.errorResponseType = ErrorResponseType::Plain;
	const int before = tasks();
	unsigned long rnd = std::stoul(o["seed"]) * 2654435761u + getpid();
	for (int tries = 0; tries < 80; tries++) {
		rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
		c.service.port = 10000 + (rnd >> 33) % 20000;
		try {
			auto s = std::make_unique<LambdaInstance>(handle, c);
			emit("up " + std::to_string(c.service.port));
			std::string l;
			while (std::getline(std::cin, l) && l != "end") {}
			std::this_thread::sleep_for(std::chrono::milliseconds(20));
			// the accepting thread of the server is one more
			for (int i = 0; i < 4000 && tasks() > before + 1; i++) std::this_thread::sleep_for(std::chrono::milliseconds(5));
			if (o["stop"] == "1") s->shutdownn();
			s.reset();
			std::cout << std::flush;
			std::cerr << std::flush;
			fflush(stdout);
			fflush(stderr);
			emit("over");
			_exit(0);
		} catch (const Lambda::Error& e) {}
	}
	emit("noport");
	return 1;
}
