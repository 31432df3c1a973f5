import os as _os
_a = {}
exec(open(_os.path.join(V, "tools/seeds/a_kvhw.seed.py")).read(), _a)
PYM, RUN, SRV = (_a[k] for k in ("PYM", "RUN", "SRV"))
PURE = '''#include "lambda.hpp"
#include "core/polyfill/polyfill.hpp"
#include "core/crypto/crypto.hpp"
#include "core/utils/utils.hpp"
#include "core/http/http.hpp"
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <unistd.h>
using namespace Lambda;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s\\n", #c); _exit(1); } } while (0)
'''
NET = '''#include "core/network/network.hpp"
#include "core/network/tcp/listener.hpp"
#include "core/network/tcp/connection.hpp"
#include <arpa/inet.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include <cstdio>
using namespace Lambda; using namespace Lambda::Network; using namespace Lambda::Network::TCP;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s\\n", #c); _exit(1); } } while (0)
static uint16_t freePort() { int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a {}; a.sin_family = AF_INET; a.sin_addr.s_addr = inet_addr("127.0.0.1"); socklen_t n = sizeof(a); bind(s, (sockaddr*)&a, n); getsockname(s, (sockaddr*)&a, &n); close(s); return ntohs(a.sin_port); }
static int dial(uint16_t p) { int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a {}; a.sin_family = AF_INET; a.sin_addr.s_addr = inet_addr("127.0.0.1"); a.sin_port = htons(p); CHECK(!connect(s, (sockaddr*)&a, sizeof(a))); return s; }
static int applied(Connection& c);
'''
LOGS = SRV + '''
int main(int argc, char** argv) {
	setvbuf(stdout, nullptr, _IONBF, 0);
	auto handler = [](const Request& req, const RequestContext& ctx) -> HandlerResponse {
		if (req.url.pathname == "/late") { auto s = ctx.startEventStream(); s.push(SSE::EventMessage("hi")); throw std::runtime_error("boom"); }
		return HTTP::Response(200, { { "content-type", "text/plain" } }, "ok");
	};
	auto c = conf(argv[1]); c.loglevel.requests = true;
	LambdaInstance server(handler, c);
	server.awaitFinished();
}
'''
LOGPY = PYM + '''
exe = build()
def up():
    for _ in range(5):
        port = free_port(); log = open(TMP + "/log", "w+b")
        p = subprocess.Popen([exe, str(port)], cwd=TMP, stdout=log, stderr=log); PROCS.append(p)
        for _ in range(100):
            time.sleep(0.05)
            if p.poll() is not None: break
            try: socket.create_connection(("127.0.0.1", port), 1).close(); return port
            except OSError: pass
    sys.exit(2)
port = up()
def logged(): return open(TMP + "/log", "rb").read().decode("latin1")
'''
SEEDS = [
 dict(id="N01-timeouts-end-it", property="N01",
  needs="a read that reaches its timeout on a connection with closeOnTimeout switched off, then another read",
  breaks="a connection is ended by a read timeout even when it was told not to",
  edits={"core/network/tcp/connection.cpp": [("\t\t\tif (this->flags.closeOnTimeout) {\n\t\t\t\tthis->end();\n\t\t\t}\n", "\t\t\tthis->end();\n")]},
  files={"demo.py": RUN, "demo.cpp": NET + '''int main() {
	const auto port = freePort(); ListenSocket l({ true, port, { 300, 300 } });
	int s = dial(port); auto c = l.acceptConnection(); CHECK(c.has_value());
	c->flags.closeOnTimeout = false;
	CHECK(!c->read().size()); CHECK(c->isOpen());
	CHECK(send(s, "x", 1, 0) == 1); CHECK(c->read().size() == 1);
}
'''}),
 dict(id="N01-resets-always-silent", property="N01",
  needs="a peer that resets the connection while throwOnDisconnect is on",
  breaks="a reset connection is read as a clean end although exceptions were asked for",
  edits={"core/network/tcp/connection.cpp": [("\t\t\tif (!this->flags.throwOnDisconnect) {\n\t\t\t\treturn {};\n\t\t\t}\n\n\t\t\tthrow NetworkError(\"Connection abruptly closed by the client\");", "\t\t\treturn {};")]},
  files={"demo.py": RUN, "demo.cpp": NET + '''int main() {
	const auto port = freePort(); ListenSocket l({ true, port, { 3000, 3000 } });
	int s = dial(port); auto c = l.acceptConnection(); CHECK(c.has_value());
	c->flags.throwOnDisconnect = true;
	linger g { 1, 0 }; setsockopt(s, SOL_SOCKET, SO_LINGER, &g, sizeof(g)); close(s);
	bool thrown = false; try { c->read(); } catch (const std::exception&) { thrown = true; }
	CHECK(thrown);
}
'''}),
 dict(id="N02-timeouts-crossed", property="N02",
  needs="a listening socket with different timeouts for the two directions",
  breaks="an accepted connection has the send timeout for receiving and the other way around",
  edits={"core/network/tcp/listener.cpp": [("nextconn.setTimeouts(this->config.connectionTimeouts.receive, SetTimeoutsDirection::Receive);", "nextconn.setTimeouts(this->config.connectionTimeouts.send, SetTimeoutsDirection::Receive);"),
   ("nextconn.setTimeouts(this->config.connectionTimeouts.send, SetTimeoutsDirection::Send);", "nextconn.setTimeouts(this->config.connectionTimeouts.receive, SetTimeoutsDirection::Send);")]},
  files={"demo.py": RUN, "demo.cpp": NET + '''int main() {
	const auto port = freePort(); ConnectionTimeouts t; t.receive = 200; t.send = 7000;
	ListenSocket l({ true, port, t });
	dial(port); auto c = l.acceptConnection(); CHECK(c.has_value());
	CHECK(c->info().timeouts.receive == 200 && c->info().timeouts.send == 7000);
}
'''}),
 dict(id="N02-moved-forgets-port", property="N02",
  needs="a listening socket that is moved into a new one, then a client",
  breaks="a moved socket has lost its configuration: wrong host port and timeouts",
  edits={"core/network/tcp/listener.cpp": [("\tthis->config = other.config;\n}\n\nListenSocket& ", "}\n\nListenSocket& ")]},
  files={"demo.py": RUN, "demo.cpp": NET + '''int main() {
	const auto port = freePort(); ListenSocket l({ true, port, { 1234, 2345 } });
	ListenSocket m(std::move(l)); dial(port); auto c = m.acceptConnection(); CHECK(c.has_value());
	CHECK(c->info().hostPort == port && c->info().timeouts.receive == l.getConfig().connectionTimeouts.receive && m.getConfig().port == port);
}
'''}),
 dict(id="Z01-inserted-text-searched", property="Z01",
  needs="a replacement whose last byte, with what comes after it, makes up the text searched for",
  breaks="replaceAll replaces text it has just inserted",
  edits={"core/polyfill/strings.cpp": [("index += replacement.size();", "index += replacement.size() ? replacement.size() - 1 : 0;")]},
  files={"demo.py": RUN, "demo.cpp": PURE + '''int main() {
	CHECK(Strings::replaceAll(std::string("abb"), "ab", "xa") == "xab");
	CHECK(Strings::replaceAll(std::string("a&b&"), "&", "&amp;") == "a&amp;b&amp;");
}
'''}),
 dict(id="Z01-last-letter-stays", property="Z01",
  needs="a capital Z that is not at the start of a word, in title case",
  breaks="title case leaves a Z in the middle of a word as it is",
  edits={"core/polyfill/strings.cpp": [("(c >= 'A' && c <= 'Z')) c += 0x20;", "(c >= 'A' && c < 'Z')) c += 0x20;")]},
  files={"demo.py": RUN, "demo.cpp": PURE + '''int main() {
	CHECK(Strings::toTittleCase(std::string("X-ZZ-AZ")) == "X-Zz-Az");
}
'''}),
 dict(id="Z02-first-dot", property="Z02",
  needs="a file name with more than one dot",
  breaks="the media type of such a name is not that of its extension",
  edits={"core/polyfill/mimetype.cpp": [("ext.find_last_of('.')", "ext.find('.')")]},
  files={"demo.py": RUN, "demo.cpp": PURE + '''int main() {
	CHECK(Content::getExtMimetype("style.min.css") == "text/css"); CHECK(Content::getExtMimetype("a.css") == "text/css");
}
'''}),
 dict(id="Z02-cookies-stop-at-nameless", property="Z02",
  needs="a list of cookies with a nameless one before others",
  breaks="the cookies after a nameless one are not set",
  edits={"core/http/response.cpp": [("if (!entry.first.size()) continue;", "if (!entry.first.size()) break;")]},
  files={"demo.py": RUN, "demo.cpp": PURE + '''int main() {
	HTTP::Response r(200); r.setCookies({ { "a", "1" }, { "", "2" }, { "b", "3" } });
	CHECK(r.headers.getAll("set-cookie").size() == 2);
}
'''}),
 dict(id="Z03-assigned-id-keeps-text", property="Z03",
  needs="an identifier that another one is assigned to",
  breaks="the text of an identifier is that of the one it was before",
  edits={"core/crypto/uid.cpp": [("\tthis->m_id.u32 = other.m_id.u32;\n\tthis->m_str = other.m_str;\n\treturn *this;", "\tthis->m_id.u32 = other.m_id.u32;\n\treturn *this;")]},
  files={"demo.py": RUN, "demo.cpp": PURE + '''int main() {
	Crypto::ShortID a(1), b(2); a = b; CHECK(a.id() == 2 && a.toString() == b.toString());
}
'''}),
 dict(id="Z03-local-dates", property="Z03",
  needs="a time zone other than UTC",
  breaks="dates are shown in local time and called GMT",
  edits={"core/polyfill/date.cpp": [("gmtime_r(&epoch, &this->timestruct);", "localtime_r(&epoch, &this->timestruct);")]},
  files={"demo.py": PYM + 'os.environ["TZ"] = "AAA-5:30"\nrun(build())\n', "demo.cpp": PURE + '''int main() {
	CHECK(Date(0).toUTCString() == "Thu, 01 Jan 1970 00:00:00 GMT");
}
'''}),
 dict(id="O01-line-ends-late", property="O01",
  needs="several threads that write single items at the same time",
  breaks="the end of a line can come after the line of another thread",
  edits={"core/utils/syncout.cpp": [("\tauto content = item.valueOpt.value() + '\\n';\n\tstd::lock_guard<std::mutex> lock(this->m_write_mtx);\n\tfwrite(content.c_str(), sizeof(char), content.size(), stdout);",
   "\tconst auto& content = item.valueOpt.value();\n\t{\n\t\tstd::lock_guard<std::mutex> lock(this->m_write_mtx);\n\t\tfwrite(content.c_str(), sizeof(char), content.size(), stdout);\n\t}\n\tfputc('\\n', stdout);")]},
  files={"demo.py": RUN, "demo.cpp": PURE + '''#include <fstream>
#include <vector>
int main() {
	for (int round = 0; round < 20; round++) {
		freopen("out.txt", "w", stdout); setvbuf(stdout, nullptr, _IONBF, 0);
		std::vector<std::thread> t;
		for (int i = 0; i < 8; i++) t.emplace_back([i] { for (int j = 0; j < 500; j++) syncout.log(std::string(20, 'a' + i)); });
		for (auto& x : t) x.join();
		fflush(stdout);
		std::ifstream f("out.txt"); std::string l; int n = 0;
		while (std::getline(f, l)) { n++; CHECK(l.size() == 20); }
		CHECK(n == 4000);
	}
}
'''}),
 dict(id="O02-late-crash-unlogged", property="O02",
  needs="a handler that throws after it has started an event stream",
  breaks="its failure is missing from the log",
  edits={"core/server/worker.cpp": [("\t\t\t\tif (config.loglevel.requests) {\n\t\t\t\t\tsyncout.error({\n\t\t\t\t\t\tlogRequestPrefix,\n\t\t\t\t\t\t\"Handler crashed:\"", "\t\t\t\tif (config.loglevel.requests && handlerMode == HandlerMode::HTTP) {\n\t\t\t\t\tsyncout.error({\n\t\t\t\t\t\tlogRequestPrefix,\n\t\t\t\t\t\t\"Handler crashed:\"")]},
  files={"demo.py": LOGPY + '''
s = connect(port); s.sendall(b"GET /late HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n")
recv_until(s, mark=b"never", limit=3)
time.sleep(.3)
check("boom" in logged(), "the failure of the handler is logged")
''', "demo.cpp": LOGS}),
 dict(id="O02-refusals-unlogged", property="O02",
  needs="a request that is refused before a handler sees it, with transport events not logged",
  breaks="refused requests leave no line in the request log",
  edits={"core/server/worker.cpp": [("if (!(config.loglevel.transportEvents || config.loglevel.requests)) {", "if (!config.loglevel.transportEvents) {")]},
  files={"demo.py": LOGPY + '''
s = connect(port); s.sendall(b"FOO / HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n")
recv_until(s, mark=b"never", limit=3)
time.sleep(.3)
check("terminated" in logged() and "FOO" in logged(), "the refusal is logged")
''', "demo.cpp": LOGS}),
 dict(id="O03-pipelined-share-id", property="O03",
  needs="three requests sent at once on one connection",
  breaks="requests that were read ahead have the same request ID",
  edits={"core/http/transport_v1.cpp": [("\tthis->m_next = new IncomingRequest {\n\t\tstd::move(next),\n\t\tCrypto::ShortID()\n\t};", "\tstatic thread_local Crypto::ShortID stamp;\n\tif (!this->m_readbuff.size()) stamp.update();\n\n\tthis->m_next = new IncomingRequest {\n\t\tstd::move(next),\n\t\tstamp\n\t};")]},
  files={"demo.py": LOGPY + '''
s = connect(port); s.sendall(b"GET /a HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n" * 4)
got = recv_until(s, mark=b"never", limit=3)
ids = [ln.split(b":")[1] for ln in got.lower().split(b"\\r\\n") if ln.startswith(b"x-request-id")]
check(len(ids) == 4 and len(set(ids)) == 4, "four requests have four IDs")
''', "demo.cpp": LOGS}),
 dict(id="O03-date-of-first-response", property="O03",
  needs="a kept connection whose second request comes seconds after the first",
  breaks="later responses have the date of the first one on their connection",
  edits={"core/http/transport_v1.cpp": [("responseHeaders.set(\"date\", Date().toUTCString());", "static thread_local const auto responseDate = Date().toUTCString();\n\tresponseHeaders.set(\"date\", responseDate);")]},
  files={"demo.py": LOGPY + '''
from email.utils import parsedate_to_datetime
s = connect(port)
def date():
    s.sendall(b"GET /a HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n")
    got = recv_until(s, mark=b"ok", limit=3)
    return [parsedate_to_datetime(ln.split(b":", 1)[1].strip().decode()) for ln in got.split(b"\\r\\n") if ln.lower().startswith(b"date")][0]
a = date(); time.sleep(4); b = date()
check((b - a).seconds >= 2, "the date of a response is when it was sent")
''', "demo.cpp": LOGS}),
 dict(id="V06-snapshot-file-by-file", property="V06",
  needs="a file that is moved by another thread while a snapshot is being saved",
  breaks="a snapshot can hold a file twice, or not at all, though there was one all the time",
  edits={"extra/vfs/interface.cpp": [("""\t\tstd::lock_guard<std::mutex> lock(this->m_mtx);

\t\tfor (const auto& entry : this->m_data) {

\t\t\tif (!writerQueue.awaitEmpty()) break;
""", """\t\tfor (const auto& info : this->listAll()) {

\t\t\tif (!writerQueue.awaitEmpty()) break;

\t\t\tstd::lock_guard<std::mutex> lock(this->m_mtx);

\t\t\tconst auto itr = this->m_data.find(info.name);
\t\t\tif (itr == this->m_data.end()) continue;
\t\t\tconst auto& entry = *itr;
""")]},
  files={"demo.py": RUN, "demo.cpp": PURE.replace("int main", "int main") + '''#include "extra/vfs/vfs.hpp"
#include <atomic>
int main() {
	VirtualFilesystem fs; std::atomic<bool> stop { false };
	fs.write("wanderer", std::string("x")); for (int i = 0; i < 4; i++) fs.write("f" + std::to_string(i), std::string("y"));
	std::thread t([&]() { for (bool b = false; !stop; b = !b) { fs.move(b ? "gone" : "wanderer", b ? "wanderer" : "gone"); std::this_thread::sleep_for(std::chrono::milliseconds(1)); } });
	bool ok = true;
	for (int i = 0; i < 60; i++) {
		fs.saveSnapshot("s.tar"); VirtualFilesystem o; o.loadSnapshot("s.tar");
		if (o.listAll().size() != 5) ok = false;
	}
	stop = true; t.join();
	CHECK(ok);
}
'''}),
 dict(id="V06-totals-before-the-lock", property="V06",
  needs="two threads that write the same new file at the same time",
  breaks="a file that two threads add at once is counted twice",
  edits={"extra/vfs/interface.cpp": [("""\tconst auto newSize = path.size() + content.size();

\tstd::lock_guard<std::mutex> lock(this->m_mtx);

\tconst auto itr = this->m_data.find(pathNormalized);

\tif (itr == this->m_data.end()) {
""", """\tconst auto newSize = path.size() + content.size();
\tconst auto isNew = !this->fileInfo(path).has_value();

\tstd::lock_guard<std::mutex> lock(this->m_mtx);

\tconst auto itr = this->m_data.find(pathNormalized);

\tif (isNew || itr == this->m_data.end()) {
""")]},
  files={"demo.py": RUN, "demo.cpp": PURE + '''#include "extra/vfs/vfs.hpp"
#include <atomic>
int main() {
	VirtualFilesystem fs; const int n = 20000; std::atomic<int> at[2];
	at[0] = at[1] = 0;
	auto body = [&](int me) { for (int i = 0; i < n; i++) { at[me] = i; while (at[1 - me] < i) {} fs.write("f" + std::to_string(i), std::string("x")); } at[me] = n; };
	std::thread a(body, 0), b(body, 1); a.join(); b.join();
	CHECK(fs.stats().totalFiles == (size_t)n && fs.listAll().size() == (size_t)n);
}
'''}),
]
