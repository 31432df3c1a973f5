// templates and the static file server
#include "util.hpp"
#include "core/http/http.hpp"
#include "core/html/html.hpp"
#include "extra/staticserver/staticserver.hpp"
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <map>
#include <memory>

using namespace drv;
using namespace Lambda;

// files with this in their name cannot be opened
static bool locked(const char* p) { return p && strstr(p, "locked"); }
template <class F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" FILE* fopen64(const char* p, const char* m) {
	if (locked(p)) { errno = EACCES; return nullptr; }
	return next<FILE* (*)(const char*, const char*)>("fopen64")(p, m);
}
extern "C" FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
extern "C" int open64(const char* p, int fl, ...) {
	if (locked(p)) { errno = EACCES; return -1; }
	va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
	return syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
extern "C" int open(const char* p, int fl, ...) {
	va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
	return open64(p, fl, mode);
}

static std::map<std::string, std::unique_ptr<StaticServer>> servers;

static std::string apply(const std::vector<std::string>& w) {
	const auto& op = w[0];
	try {
		if (op == "tpl") {
			HTML::TemplateProps props;
			for (size_t i = 2; i + 1 < w.size(); i += 2) props[unhex(w[i])] = unhex(w[i + 1]);
			return "v " + hex(HTML::renderTemplate(unhex(w[1]), props));
		}
		if (op == "ss" || op == "sreq") {
			auto& s = servers[w[1]];
			if (!s) s = std::make_unique<StaticServer>(unhex(w[1]));
			HTTP::Response r;
			if (op == "ss") r = s->serve(unhex(w[2]));
			else {
				HTTP::Request q;
				q.url = HTTP::URL(unhex(w[2]));
				r = s->serve(q);
			}
			return "r " + std::to_string(r.status.code()) + " " + hex(r.headers.get("content-type")) + " " + hex(r.body.buffer());
		}
	} catch (const std::exception& e) { return "throw"; }
	catch (...) { return "throw"; }
	return "?";
}

int main() {
	std::string line;
	while (drv::next(line)) {
		auto w = words(line);
		if (w.empty()) continue;
		out(apply(w));
	}
	return 0;
}
