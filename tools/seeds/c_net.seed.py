import os as _os
_a = {}
exec(open(_os.path.join(V, "tools/seeds/a_kvhw.seed.py")).read(), _a)
PYM, RUN, KVH, SRV, ECHO, WSS, T1 = (_a[k] for k in ("PYM", "RUN", "KVH", "SRV", "ECHO", "WSS", "T1"))
SSE = SRV.replace('#include "lambda.hpp"', '#include "lambda.hpp"\n#include "core/sse/sse.hpp"') + '''
int main(int argc, char** argv) {
	auto handler = [](const Request& req, const RequestContext& ctx) -> HandlerResponse {
		auto sse = ctx.startEventStream();
		SSE::EventMessage m; m.data = "x"; m.retry = 0; sse.push(m);
		if (req.url.pathname == "/gone") {
			std::this_thread::sleep_for(std::chrono::milliseconds(300)); bool told = false;
			try { for (int i = 0; i < 20; i++) { sse.push(m); std::this_thread::sleep_for(std::chrono::milliseconds(50)); } } catch (const std::exception&) { told = true; }
			FILE* f = fopen(told ? "told" : "silent", "w"); fclose(f); return {};
		}
		sse.close();
		return {};
	};
	LambdaInstance server(handler, conf(argv[1]));
	server.awaitFinished();
}
'''
RESPKA = SRV + '''
int main(int argc, char** argv) {
	auto handler = [](const Request& req, const RequestContext& ctx) -> HandlerResponse {
		return HTTP::Response(200, { { "content-type", "text/plain" }, { "connection", "keep-alive" } }, "ok");
	};
	LambdaInstance server(handler, conf(argv[1]));
	server.awaitFinished();
}
'''
SLOW = SRV + '''
int main(int argc, char** argv) {
	auto handler = [](const Request& req, const RequestContext& ctx) -> HandlerResponse {
		if (req.url.pathname == "/slow") std::this_thread::sleep_for(std::chrono::seconds(6));
		return HTTP::Response(200, { { "content-type", "text/plain" } }, "ok");
	};
	auto c = conf(argv[1]); c.service.maxConnections = 50; c.service.useThreadList = true;
	LambdaInstance server(handler, c);
	server.awaitFinished();
}
'''
STOP = SRV + '''
int main(int argc, char** argv) {
	auto handler = [](const Request& req, const RequestContext& ctx) -> HandlerResponse {
		if (req.url.pathname == "/slow") std::this_thread::sleep_for(std::chrono::seconds(2));
		return HTTP::Response(200, { { "content-type", "text/plain" } }, "ok");
	};
	auto c = conf(argv[1]); c.service.maxConnections = 0; c.service.useThreadList = true; c.service.connectionTimeouts = { 20000, 20000 };
	LambdaInstance server(handler, c);
	std::this_thread::sleep_for(std::chrono::milliseconds(3000));
	server.shutdownn();
	server.awaitFinished();
}
'''
SEEDS = [
 dict(id="K02-removals-unflushed", property="K02",
  needs="a process that is killed after a removal and before any other write",
  breaks="a removal that returned is lost with the process",
  edits={"extra/kvstorage/driver.cpp": [("	this->m_stream.flush();\n\n	if (!this->m_stream) {", "	if (tractx.type != TransactionType::Remove) {\n		this->m_stream.flush();\n	}\n\n	if (!this->m_stream) {")]},
  files={"demo.py": RUN, "demo.cpp": KVH + '''#include <sys/wait.h>
int main() {
	if (fork() == 0) { Storage::KVStorage::StorageInterface s("./x.ldb"); s.setItem("a", "1"); s.removeItem("a"); _exit(0); }
	wait(nullptr);
	Storage::KVStorage::StorageInterface s("./x.ldb"); CHECK(!s.hasItem("a"));
}
'''}),
 dict(id="K05-map-before-file", property="K05",
  needs="a write that the disk refuses",
  breaks="a set that failed shows its value in the open storage",
  edits={"extra/kvstorage/interface.cpp": [("""	if (this->driver != nullptr) {
		this->driver->handleTransaction({ TransactionType::Put, &key, &value });
	}

	this->data[key] = value;""", """	this->data[key] = value;

	if (this->driver != nullptr) {
		this->driver->handleTransaction({ TransactionType::Put, &key, &value });
	}""")]},
  files={"demo.py": RUN, "demo.cpp": KVH + '''#include <sys/resource.h>
#include <csignal>
int main() {
	signal(SIGXFSZ, SIG_IGN);
	Storage::KVStorage::StorageInterface s("./x.ldb"); s.setItem("a", "1");
	rlimit r { 64, 64 }; setrlimit(RLIMIT_FSIZE, &r);
	bool threw = false;
	try { for (int i = 0; i < 100; i++) s.setItem("b", std::string(50, 'b')); } catch (const std::exception&) { threw = true; }
	CHECK(threw);
	try { s.setItem("c", std::string(50, 'c')); CHECK(false); } catch (const std::exception&) {}
	CHECK(!s.hasItem("c"));
}
'''}),
 dict(id="V05-load-errors-lost", property="V05",
  needs="a snapshot that is damaged",
  breaks="loading a damaged or missing snapshot returns as if it was complete",
  edits={"extra/vfs/interface.cpp": [("		readerPromise.get();", "		readerPromise.wait();")]},
  files={"demo.py": RUN, "demo.cpp": KVH + '''int main() {
	std::ofstream("bad.tar") << std::string(700, 'x');
	VFS::Interface fs; bool threw = false;
	try { fs.loadSnapshot("./bad.tar"); } catch (const std::exception&) { threw = true; }
	CHECK(threw);
}
'''}),
 dict(id="H02-length-of-plain-body", property="H02",
  needs="a response that gets compressed",
  breaks="content-length of compressed responses",
  edits={T1: [("	const auto bodyBufferSize = responseBodyBuffer.size();", "	const auto bodyBufferSize = std::min(responseBodyBuffer.size(), responsectx.response.body.buffer().size());")]},
  files={"demo.py": PYM + '''
port, p = serve(build())
s = connect(port)
s.sendall(b"GET /x HTTP/1.1\\r\\nhost: a\\r\\naccept-encoding: gzip\\r\\n\\r\\nGET /y HTTP/1.1\\r\\nhost: a\\r\\nconnection: close\\r\\n\\r\\n")
st, hs, body, rest = response(s)
import zlib
try: d = zlib.decompress(body, 31)
except zlib.error: d = None
check(d == b"GET /x ", "first response")
st, hs, body, rest = response(s, rest)
check(body == b"GET /y ", "second response")
''', "demo.cpp": ECHO}),
 dict(id="H03-nameless-header-ignored", property="H03",
  needs="a request with a header line that starts with a colon",
  breaks="such a request reaches the handler",
  edits={T1: [("""		if (!headerKey.size()) {
			throw ProtocolError("Invalid request header (empty name)", 400);
		}
""", """		if (!headerKey.size() && i == 1) {
			throw ProtocolError("Invalid request header (empty name)", 400);
		} else if (!headerKey.size()) {
			continue;
		}
""")]},
  files={"demo.py": PYM + '''
port, p = serve(build())
s = connect(port)
s.sendall(b"GET /x HTTP/1.1\\r\\nhost: a\\r\\n: value\\r\\n\\r\\n")
check(response(s)[0] == 400, "status")
''', "demo.cpp": ECHO}),
 dict(id="H04-handlers-keepalive-unheard", property="H04",
  needs="a client that asks to close and a handler whose response says keep-alive",
  breaks="the connection is closed although the response announced keep-alive",
  edits={T1: [("			KeepAliveStatus::Close : KeepAliveStatus::KeepAlive;\n	} else {", "			KeepAliveStatus::Close : this->m_keepalive;\n	} else {")]},
  files={"demo.py": PYM + '''
port, p = serve(build())
s = connect(port)
s.sendall(b"GET /x HTTP/1.1\\r\\nhost: a\\r\\nconnection: close\\r\\n\\r\\n")
st, hs, body, rest = response(s)
check(hs["connection"] == "keep-alive", "announcement")
try:
    s.sendall(b"GET /y HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n")
    r = response(s, rest)
except OSError: r = None
check(r and r[0] == 200, "second request")
''', "demo.cpp": RESPKA}),
 dict(id="H05-raw-deflate", property="H05",
  needs="a client that accepts deflate only",
  breaks="deflate bodies lack the zlib wrapper",
  edits={T1: [("Compress::Quality::Noice, Compress::ZlibSetHeader::Defalte);", "Compress::Quality::Noice, Compress::ZlibSetHeader::Raw);")]},
  files={"demo.py": PYM + '''
import zlib
port, p = serve(build())
s = connect(port)
s.sendall(b"GET /x HTTP/1.1\\r\\nhost: a\\r\\naccept-encoding: deflate\\r\\n\\r\\n")
st, hs, body, rest = response(s)
check(hs["content-encoding"] == "deflate", "coding")
try: d = zlib.decompress(body)
except zlib.error: d = None
check(d == b"GET /x ", "body")
''', "demo.cpp": ECHO}),
 dict(id="H07-error-page-to-the-gone", property="H07",
  needs="a malformed request whose sender resets the connection before the answer",
  breaks="the server process ends when an error page cannot be sent",
  edits={"core/server/worker.cpp": [("""			transport.close();

		} catch(...) {
""", """			transport.close();

		} catch(const std::runtime_error&) {
""")]},
  files={"demo.py": PYM + '''
port, p = serve(build())
for i in range(300):
    s = connect(port)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    s.sendall(b"GET /" + b"x" * (i * 13 % 3000) + b" HTTP/1.1\\r\\nhost: a\\r\\nbad\\r\\n\\r\\n")
    s.close()
    if p.poll() is not None: break
time.sleep(0.5)
check(p.poll() is None, "server ended")
s = connect(port)
s.sendall(b"GET /x HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n")
check(response(s)[0] == 200, "status")
''', "demo.cpp": ECHO}),
 dict(id="W01-upgrade-case", property="W01",
  needs="a client that writes its upgrade header as WebSocket",
  breaks="handshakes of such clients are refused",
  edits={"core/websocket/websocket.cpp": [('	auto headerUpgrade = Strings::toLowerCase(request.headers.get("Upgrade"));', '	auto headerUpgrade = request.headers.get("Upgrade");')]},
  files={"demo.py": PYM + '''
port, p = serve(build())
s = connect(port)
s.sendall(b"GET /ws HTTP/1.1\\r\\nhost: a\\r\\nupgrade: WebSocket\\r\\nconnection: upgrade\\r\\nsec-websocket-key: dGhlIHNhbXBsZSBub25jZQ==\\r\\n\\r\\n")
b = recv_until(s, mark=b"\\r\\n\\r\\n")
check(b.startswith(b"HTTP/1.1 101") and b"s3pPLMBiTxaQ9kYGzzhZRbK+xOo=" in b, b)
''', "demo.cpp": WSS}),
 dict(id="W03-unknown-frames-delivered", property="W03",
  needs="a frame of an unknown opcode",
  breaks="the payload of a frame with an unknown opcode is delivered as a message",
  edits={"core/websocket/transport.cpp": [("""			auto opcodeInt = static_cast<std::underlying_type_t<OpCode>>(frameHeader.opcode);
			this->close(CloseReason::ProtocolError);
			throw std::runtime_error("received an invalid opcode (" + std::to_string(opcodeInt) + ")");
""", """			this->close(CloseReason::ProtocolError);
""")]},
  files={"demo.py": PYM + '''
port, p = serve(build())
s, rest = ws(port)
s.sendall(frame(3, b"strange"))
b = recv_until(s, n=100, limit=3)
time.sleep(0.5)
check(not os.path.exists(TMP + "/got"), "delivered")
''', "demo.cpp": WSS.replace("			auto m = ws.nextMessage();", '			auto m = ws.nextMessage(); fclose(fopen("got", "w"));').replace("		return {};\n	};", '		fclose(fopen("ended", "w")); return {};\n	};').replace("			ws.sendMessage(std::string(m.bin", "			try { ws.sendMessage(std::string(m.bin").replace("m.text());", "m.text()); } catch (const std::exception&) {}")}),
 dict(id="E01-no-retry-of-zero", property="E01",
  needs="an event with a retry time of zero",
  breaks="the retry field of such events is left out",
  edits={"core/sse/writer.cpp": [("	if (event.retry.has_value()) {", "	if (event.retry.value_or(0)) {")]},
  files={"demo.py": PYM + '''
port, p = serve(build())
s = connect(port)
s.sendall(b"GET /x HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n")
b = recv_until(s)
check(b"retry: 0" in b or b"retry:0" in b, b)
''', "demo.cpp": SSE}),
 dict(id="E01-pushes-into-the-void", property="E01",
  needs="pushing to a client that has disconnected",
  breaks="the handler is never told that its listener is gone",
  edits={"core/sse/writer.cpp": [('		throw Lambda::Error("SSE listener disconnected");', '		return;')]},
  files={"demo.py": PYM + '''
port, p = serve(build())
s = connect(port)
s.sendall(b"GET /gone HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n")
recv_until(s, mark=b"x")
s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
s.close()
for _ in range(100):
    time.sleep(0.05)
    if os.path.exists(TMP + "/told") or os.path.exists(TMP + "/silent"): break
check(os.path.exists(TMP + "/told"), "told")
''', "demo.cpp": SSE}),
 dict(id="L01-finished-hide-the-rest", property="L01",
  needs="a shutdown while an older connection is in use and a newer one has just ended",
  breaks="connections older than an ended one are not told to stop",
  edits={"core/server/instance.cpp": [("			worker.shutdownFlag = true;", "			if (worker.finished) break;\n			worker.shutdownFlag = true;")]},
  files={"demo.py": PYM + '''
port, p = serve(build())
a = connect(port)
time.sleep(0.2)
b = connect(port)
b.sendall(b"GET /x HTTP/1.1\\r\\nhost: a\\r\\nconnection: close\\r\\n\\r\\n")
recv_until(b)
end = time.time() + 9
n = 0
while time.time() < end and p.poll() is None:
    try:
        a.sendall(b"GET /x HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n")
        if not a.recv(4096): break
    except OSError: break
    time.sleep(0.1)
try: p.wait(3)
except subprocess.TimeoutExpired: pass
check(p.poll() is not None, "still running")
''', "demo.cpp": STOP}),
 dict(id="L02-ended-still-counted", property="L02",
  needs="more connections than the limit, one after the other",
  breaks="connections that have ended keep their place until none is left",
  edits={"core/server/instance.cpp": [("				this->m_connections_count--;\n				return true;", "				if (node.conn.isOpen()) {\n					this->m_connections_count--;\n				}\n				return true;")]},
  files={"demo.py": PYM + '''
port, p = serve(build())
for i in range(120):
    s = connect(port)
    try:
        s.sendall(b"GET /x HTTP/1.1\\r\\nhost: a\\r\\nconnection: close\\r\\n\\r\\n")
        r = response(s)
    except OSError: r = None
    check(r and r[0] == 200, "request %d" % i)
    s.close()
    time.sleep(0.01)
''', "demo.cpp": SLOW}),
 dict(id="L03-one-handler-at-a-time", property="L03",
  needs="two connections whose handlers run at the same time, one slowly",
  breaks="a slow handler holds up all the other connections",
  edits={"core/server/worker.cpp": [("				functionResponse = handlerCallback(request, requestCTX).response;", "				static std::mutex handlerMutex;\n				std::lock_guard<std::mutex> handlerLock(handlerMutex);\n				functionResponse = handlerCallback(request, requestCTX).response;"),
    ('#include "../crypto/crypto.hpp"\n', '#include "../crypto/crypto.hpp"\n\n#include <mutex>\n')]},
  files={"demo.py": PYM + '''
port, p = serve(build())
a = connect(port)
a.sendall(b"GET /slow HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n")
time.sleep(0.3)
b = connect(port)
t = time.time()
b.sendall(b"GET /x HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n")
check(response(b)[0] == 200, "status")
check(time.time() - t < 3, "delayed")
''', "demo.cpp": SLOW}),
]
