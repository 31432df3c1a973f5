PYM = "import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n"
RUN = PYM + "run(build())\n"
KVH = '''#include "lambda.hpp"
#include "extra/kvstorage/kvstorage.hpp"
#include "extra/vfs/vfs.hpp"
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <atomic>
#include <fstream>
#include <unistd.h>
using namespace Lambda;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s\\n", #c); _exit(1); } } while (0)
'''
SRV = '''#include "lambda.hpp"
#include <cstdlib>
#include <thread>
using namespace Lambda;
static ServerConfig conf(const char* port) {
	ServerConfig c; c.service.port = (uint16_t)atoi(port); c.service.fastPortReuse = true;
	c.loglevel.requests = false; c.loglevel.startMessage = false; return c;
}
'''
ECHO = SRV + '''
int main(int argc, char** argv) {
	auto handler = [](const Request& req, const RequestContext& ctx) -> HandlerResponse {
		if (req.url.pathname == "/int") throw 42;
		if (req.url.pathname == "/none") { HTTP::Response r(200); return r; }
		HTTP::Response res(200, { { "content-type", "text/plain" }, { "x-host", req.url.hostname }, { "x-port", req.url.port } }, req.method.toString() + " " + req.url.pathname + " " + req.body.text());
		return res;
	};
	LambdaInstance server(handler, conf(argv[1]));
	server.awaitFinished();
}
'''
WSS = SRV + '''
int main(int argc, char** argv) {
	auto handler = [](const Request& req, const RequestContext& ctx) -> HandlerResponse {
		auto ws = ctx.upgrateToWebsocket();
		if (req.url.pathname == "/big") { ws.sendMessage(std::string(65535, 'x')); ws.sendMessage(std::string("after")); }
		while (ws.awaitMessage()) {
			auto m = ws.nextMessage();
			ws.sendMessage(std::string(m.binary ? "b" : "t") + (m.partial ? "+" : ".") + m.text());
		}
		return {};
	};
	LambdaInstance server(handler, conf(argv[1]));
	server.awaitFinished();
}
'''
T1 = "core/http/transport_v1.cpp"
SEEDS = [
 dict(id="K01-replay-keeps-first", property="K01",
  needs="a key written at least twice in one session, then a reopen",
  breaks="after a reopen an overwritten key has its first value instead of its last one",
  edits={"extra/kvstorage/driver.cpp": [("(*this->m_init_data)[putKey] = putValue;", "this->m_init_data->insert({ putKey, putValue });")]},
  files={"demo.py": RUN, "demo.cpp": KVH + '''int main() {
	{ Storage::KVStorage::StorageInterface s("./x.ldb"); s.setItem("k", "one"); s.setItem("k", "two"); }
	{ Storage::KVStorage::StorageInterface s("./x.ldb"); CHECK(s.getItem("k") == "two"); }
}
'''}),
 dict(id="K03-short-key-accepted", property="K03",
  needs="a database file cut in the middle of the key of a removal record",
  breaks="a damaged file is opened, and rewritten, as if it was complete",
  edits={"extra/kvstorage/driver.cpp": [("""					this->m_stream.read(removeKey.data(), removeKey.size());
					if (this->m_stream.gcount() != recordHeader.keySize) {
						throw std::runtime_error("Corrupt db file: incomplete record data");
					}
""", """					this->m_stream.read(removeKey.data(), removeKey.size());
					if (this->m_stream.gcount() != recordHeader.keySize) {
						break;
					}
""")]},
  files={"demo.py": RUN, "demo.cpp": KVH + '''int main() {
	{ Storage::KVStorage::StorageInterface s("./x.ldb"); s.setItem("key", "one"); s.setItem("other", "two"); s.removeItem("key"); }
	std::ifstream in("./x.ldb", std::ios::binary);
	std::string all((std::istreambuf_iterator<char>(in)), {}); in.close();
	all.resize(all.size() - 1);
	std::ofstream out("./x.ldb", std::ios::binary); out << all; out.close();
	bool refused = false;
	try { Storage::KVStorage::StorageInterface s("./x.ldb"); } catch (const std::exception&) { refused = true; }
	CHECK(refused);
}
'''}),
 dict(id="K04-get-without-lock", property="K04",
  needs="getItem() of one thread running while another one stores",
  breaks="readers look at the map while a writer changes it",
  edits={"extra/kvstorage/interface.cpp": [("""std::string StorageInterface::getItem(const std::string& key) {
	std::lock_guard <std::mutex> lock(this->mtlock);
	auto entry""", """std::string StorageInterface::getItem(const std::string& key) {
	auto entry""")]},
  files={"demo.py": PYM + "run(build(flags=['-fsanitize=thread', '-g', '-O1'], whole=True))\n", "demo.cpp": KVH + '''int main() {
	Storage::KVStorage::StorageInterface s("./x.ldb");
	std::atomic<bool> stop { false };
	std::thread w([&]() { for (int i = 0; i < 3000; i++) s.setItem("k" + std::to_string(i % 50), std::string(i % 40, 'x')); stop = true; });
	std::thread r([&]() { while (!stop) s.getItem("k7"); });
	w.join(); r.join();
}
'''}),
 dict(id="V01-overwrite-resets-created", property="V01",
  needs="a file overwritten in a later second than it was created in",
  breaks="the creation time of a file changes when it is overwritten",
  edits={"extra/vfs/interface.cpp": [("itr != this->m_data.end() ? itr->second.created : std::time(nullptr),", "itr != this->m_data.end() ? itr->second.modified : std::time(nullptr),")]},
  files={"demo.py": RUN, "demo.cpp": KVH + '''int main() {
	VFS::Interface fs; fs.write("a", std::string("1")); auto c = fs.fileInfo("a")->created;
	sleep(1); usleep(100000); fs.write("a", std::string("2")); sleep(1); usleep(100000); fs.write("a", std::string("3"));
	CHECK(fs.fileInfo("a")->created == c);
}
'''}),
 dict(id="V02-remove-counts-name-as-given", property="V02",
  needs="two files, one of which is removed twice",
  breaks="the statistics after removing a file that is not there",
  edits={"extra/vfs/interface.cpp": [("""	if (itr != this->m_data.end()) {
		this->m_info.totalSize -= (itr->first.size() + itr->second.buffer.size());
		this->m_info.totalFiles--;
		this->m_data.erase(itr);
	}""", """	if (this->m_info.totalFiles) {
		this->m_info.totalFiles--;
	}
	if (itr != this->m_data.end()) {
		this->m_info.totalSize -= (itr->first.size() + itr->second.buffer.size());
		this->m_data.erase(itr);
	}""")]},
  files={"demo.py": RUN, "demo.cpp": KVH + '''int main() {
	VFS::Interface fs; fs.write("a", std::string("1")); fs.write("b", std::string("1")); fs.remove("a"); fs.remove("a");
	CHECK(fs.stats().totalFiles == 1);
}
'''}),
 dict(id="V03-name-of-100-bytes", property="V03",
  needs="a file whose name is exactly 100 bytes long, saved and loaded",
  breaks="the last byte of such a name is lost in a snapshot",
  edits={"extra/vfs/format_tar.cpp": [("if (nextFile.name.size() >= sizeof(TarPosixHeader::name)) {", "if (nextFile.name.size() > sizeof(TarPosixHeader::name)) {")]},
  files={"demo.py": RUN, "demo.cpp": KVH + '''int main() {
	VFS::Interface fs; std::string n(100, 'n'); fs.write(n, std::string("data")); fs.saveSnapshot("./x.tar");
	VFS::Interface two; two.loadSnapshot("./x.tar"); CHECK(two.read(n).has_value());
}
'''}),
 dict(id="V04-foreign-full-name-field", property="V04",
  needs="an archive of another tool whose name field is filled up to its last byte",
  breaks="such an entry is loaded under a name without its last byte",
  edits={"extra/vfs/format_tar.cpp": [("nameFieldFit ? strlen(posixHeader->name) : sizeof(posixHeader->name);", "nameFieldFit ? strlen(posixHeader->name) : sizeof(posixHeader->name) - 1;")]},
  files={"demo.py": PYM + '''import tarfile, io
with tarfile.open(TMP + "/x.tar", "w", format=tarfile.USTAR_FORMAT) as t:
    i = tarfile.TarInfo("m" * 100); i.size = 3; t.addfile(i, io.BytesIO(b"abc"))
run(build())
''', "demo.cpp": KVH + '''int main() {
	VFS::Interface fs; fs.loadSnapshot("./x.tar"); CHECK(fs.read(std::string(100, 'm')).has_value());
}
'''}),
 dict(id="H01-body-takes-the-pipeline", property="H01",
  needs="a request with a body and the next request arriving in the same segment",
  breaks="requests that were pipelined behind a request with a body are lost",
  edits={T1: [("		this->m_readbuff.erase(this->m_readbuff.begin(), this->m_readbuff.begin() + bodySize);\n", "		this->m_readbuff.clear();\n")]},
  files={"demo.py": PYM + '''port, p = serve(build())
s = connect(port)
s.sendall(b"POST /a HTTP/1.1\\r\\nhost: x\\r\\ncontent-length: 3\\r\\n\\r\\nabcGET /b HTTP/1.1\\r\\nhost: x\\r\\n\\r\\n")
try:
    r = response(s); check(r and r[2] == b"POST /a abc", r)
    r = response(s, r[3]); check(r and r[2].startswith(b"GET /b"), r)
except OSError as e: check(False, e)
''', "demo.cpp": ECHO}),
 dict(id="H06-odd-exceptions-drop", property="H06",
  needs="a handler that throws something that is not a std::exception",
  breaks="the client gets no response and the connection ends",
  edits={"core/server/worker.cpp": [("""			} catch (...) {
				functionResponse = handleFunctionError(std::runtime_error("Unexpected handler exception"));
			}
""", """			}
""")]},
  files={"demo.py": PYM + '''port, p = serve(build())
s = connect(port)
s.sendall(b"GET /int HTTP/1.1\\r\\nhost: x\\r\\n\\r\\n")
r = response(s); check(r and r[0] == 500, r)
''', "demo.cpp": ECHO}),
 dict(id="H08-port-of-the-host", property="H08",
  needs="a host header without a port, on a server that listens on another port than 80",
  breaks="url.port is the local port although the client named none",
  edits={T1: [("""			hostHeader.substr(hostHeaderSem + 1) : "") :
""", """			hostHeader.substr(hostHeaderSem + 1) : std::to_string(conninfo.hostPort)) :
""")]},
  files={"demo.py": PYM + '''port, p = serve(build())
s = connect(port)
s.sendall(b"GET /a HTTP/1.1\\r\\nhost: example.org\\r\\n\\r\\n")
r = response(s); check(r and r[1].get("x-port", "") == "", r)
''', "demo.cpp": ECHO}),
 dict(id="W04-length-65535", property="W04",
  needs="a message of exactly 65535 bytes sent to a client",
  breaks="its frame has the length in the wrong form and the client loses track of the stream",
  edits={"core/websocket/transport.cpp": [("header.payloadSize >= 126 && header.payloadSize <= 65535) {", "header.payloadSize >= 126 && header.payloadSize < 65535) {")]},
  files={"demo.py": PYM + '''port, p = serve(build())
s, rest = ws(port, "/big")
op, fin, data, rest, form = read_frame(s, rest)
check(len(data) == 65535 and form == 126, (len(data), form))
''', "demo.cpp": WSS}),
 dict(id="W02-continuations-are-text", property="W02",
  needs="a binary message that comes in more than one fragment",
  breaks="the following parts of a binary message are marked as text",
  edits={"core/websocket/transport.cpp": [("""					multipartCtx.value().binary : 
""", """					false : 
""")]},
  files={"demo.py": PYM + '''port, p = serve(build())
s, rest = ws(port)
s.sendall(frame(2, b"ab", False) + frame(0, b"cd", True))
op, fin, data, rest, form = read_frame(s, rest); check(data == b"b+ab", data)
op, fin, data, rest, form = read_frame(s, rest); check(data == b"b.cd", data)
''', "demo.cpp": WSS}),
 dict(id="W05-silent-clients-stay", property="W05",
  needs="a client that stops answering pings without closing its connection",
  breaks="such a client is kept for minutes",
  edits={"core/websocket/transport.cpp": [("static const unsigned short wsMaxSkippedAttempts = 3;", "static const unsigned short wsMaxSkippedAttempts = 30;")]},
  files={"demo.py": PYM + '''port, p = serve(build())
s, rest = ws(port)
s.settimeout(1)
end = time.time() + 45; ended = False
while time.time() < end and not ended:
    try:
        d = s.recv(4096)
        if not d: ended = True
        if d.startswith(b"\\x88"): ended = True
    except TimeoutError: pass
    except ConnectionError: ended = True
check(ended, "still there")
''', "demo.cpp": WSS}),
]
