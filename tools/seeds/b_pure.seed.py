PYM = "import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n"
RUN = PYM + "run(build())\n"
H = '''#include "lambda.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <filesystem>
#include <unistd.h>
using namespace Lambda;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s\\n", #c); _exit(1); } } while (0)
'''
def cpp(body):
    return {"demo.py": RUN, "demo.cpp": H + "int main() {\n" + body + "\n}\n"}
SEEDS = [
 dict(id="J01-nested-arrays-split", property="J01",
  needs="an array of arrays inside an object inside an array, with commas",
  breaks="commas of arrays below an object count as separators",
  edits={"core/json/parse.cpp": [("""			case '[':
				ptnss_array++;""", """			case '[':
				if (ptnss_array < 2) ptnss_array++;""")]},
  files=cpp('auto v = JSON::parse("[[[[1,2]],3]]"); CHECK(v.asArray().size() == 1); CHECK(JSON::stringify(v) == "[[[[1,2]],3]]");')),
 dict(id="C01-empty-values-unlisted", property="C01",
  needs="a header with an empty value",
  breaks="entries() leaves out values that are empty",
  edits={"core/http/kvcontainer.cpp": [("""		for (const auto& value : entry.second) {
""", """		for (const auto& value : entry.second) {
			if (value.empty() && entry.second.size() > 1) continue;
""")]},
  files=cpp('HTTP::KVContainer h; h.append("a", "1"); h.append("a", ""); CHECK(h.entries().size() == 2);')),
 dict(id="C02-first-attributes-stay", property="C02",
  needs="a cookie that is set twice, with attributes the second time",
  breaks="the response carries the first value of a cookie that was set again with attributes",
  edits={"core/http/cookies.cpp": [("	this->m_set_queue[keyNormalized] = { value, props };", "	this->m_set_queue.insert({ keyNormalized, { value, props } });")]},
  files=cpp('HTTP::Cookies c; c.set("a", "1"); c.set("a", "2", { "Secure" }); auto s = c.serialize(); CHECK(s.size() == 1); CHECK(s[0].find("a=2") == 0);')),
 dict(id="U01-colon-in-password", property="U01",
  needs="a password with a colon in the URL",
  breaks="the user name takes a part of the password",
  edits={"core/http/url.cpp": [("const auto credSep = credentails.find(':');", "const auto credSep = credentails.rfind(':');")]},
  files=cpp('HTTP::URL u("http://me:a:b@host/x"); CHECK(u.username == "me"); CHECK(u.password == "a:b");')),
 dict(id="U01-query-after-fragment", property="U01",
  needs="a fragment with a question mark in it",
  breaks="a question mark of the fragment starts a query",
  edits={"core/http/url.cpp": [("""		//	get document fragment aka hash
		cursor = urlDocPart.find_first_of('#');
""", """		//	get document fragment aka hash
		cursor = urlDocPart.find_last_of('#');
""")]},
  files=cpp('HTTP::URL u("http://host/x#one#two"); CHECK(u.pathname == "/x"); CHECK(u.hash == "#one#two");')),
 dict(id="X01-sha1-second-padding-block", property="X01",
  needs="a message whose length leaves 56 to 63 bytes in the last block",
  breaks="the digest of such messages",
  edits={"core/crypto/sha1.cpp": [("		memset(ctx->data, 0, 56);", "		memset(ctx->data, 0, 55);")]},
  files=cpp('std::string s; for (int i = 0; i < 60; i++) s.push_back(1 + i); CHECK(Encoding::toHex(Crypto::SHA1().update(s).digest()) == "F79F59D1CB3BD277569F12D28122B164E0BF1658");')),
 dict(id="T01-values-rendered-again", property="T01",
  needs="a value that looks like a placeholder",
  breaks="placeholders inside of values are replaced too",
  edits={"core/html/renderer.cpp": [("		searchStart = templateOpen + templContent.size();", "		searchStart = templateOpen;")]},
  files=cpp('CHECK(HTML::renderTemplate("<{{ a }}>", { { "a", "{{b}}" }, { "b", "2" } }) == "<{{b}}>");')),
 dict(id="T01-trailing-blanks", property="T01",
  needs="more than one blank after a placeholder name",
  breaks="placeholders with several blanks before the closing braces",
  edits={"core/html/renderer.cpp": [("""				if (!isWhitespace(item)) {
					return std::nullopt;
				}

			} break;
			
			default""", """				if (!isWhitespace(item) || i + 1 < endpost) {
					return std::nullopt;
				}

			} break;
			
			default""")]},
  files=cpp('CHECK(HTML::renderTemplate("<{{ a   }}>", { { "a", "1" } }) == "<1>");')),
 dict(id="S01-relative-dots", property="S01",
  needs="a path that does not start with a slash but with two dots",
  breaks="files beside the root directory are served",
  edits={"extra/staticserver/staticserver.cpp": [("	auto normalizedPathname = flattenPathName(pathname);", "	auto normalizedPathname = pathname.starts_with('/') || pathname.find('\\\\') != std::string::npos ? flattenPathName(pathname) : pathname;")]},
  files=cpp('''std::filesystem::create_directories("root"); std::ofstream("secret.txt") << "secret"; std::ofstream("root/a.txt") << "a";
	StaticServer s("./root"); CHECK(s.serve("../secret.txt").status.code() == 404); CHECK(s.serve("/a.txt").status.code() == 200);''')),
 dict(id="S02-dotted-parent", property="S02",
  needs="a directory without extension inside one with a dot in its name",
  breaks="the index of such a directory is not found",
  edits={"extra/staticserver/staticserver.cpp": [("	auto lastSlashPos = basePath.find_last_of('/');\n", "	auto lastSlashPos = this->m_root.size();\n")]},
  files=cpp('''std::filesystem::create_directories("root/v1.0/docs"); std::ofstream("root/v1.0/docs/index.html") << "docs";
	StaticServer s("./root"); CHECK(s.serve("/v1.0/docs").status.code() == 200);''')),
 dict(id="S02-index-order", property="S02",
  needs="a directory with both index.html and index.htm",
  breaks="index.htm wins over index.html",
  edits={"extra/staticserver/staticserver.cpp": [("""		"index.html",
		"index.htm"
""", """		"index.htm",
		"index.html"
""")]},
  files=cpp('''std::filesystem::create_directories("root"); std::ofstream("root/index.html") << "1"; std::ofstream("root/index.htm") << "2";
	StaticServer s("./root"); CHECK(s.serve("/").body.text() == "1");''')),
 dict(id="G01-truncated-brotli", property="G01",
  needs="a brotli stream cut short after some of its output",
  breaks="a truncated brotli stream is taken for a complete one",
  edits={"core/compression/brotli.cpp": [("""					if (eob) {
						throw std::runtime_error("Incomplete brotli stream");
					}
""", """					if (eob && cursor_out != available_out) {
						decompressed.resize(cursor_out - available_out);
						return decompressed;
					} else if (eob) {
						throw std::runtime_error("Incomplete brotli stream");
					}
""")]},
  files=cpp('''std::vector<uint8_t> d; unsigned x = 1; for (int i = 0; i < 9000000; i++) { x = x * 1103515245 + 12345; d.push_back(x >> 16); }
	auto z = Compress::brotliCompressBuffer(d, Compress::Quality::Fast); z.resize(z.size() / 2); bool threw = false;
	try { Compress::brotliDecompressBuffer(z); } catch (const std::exception&) { threw = true; } CHECK(threw);''')),
 dict(id="G01-reset-in-progress", property="G01",
  needs="a stream compressor that is reset before it was ended",
  breaks="the next stream continues the one before",
  edits={"core/compression/zlib_stream_compress.cpp": [("""		case Stage::Progress: {
			deflateReset(reinterpret_cast<z_stream*>(this->m_stream));
		} break;
""", """		case Stage::Progress: {
			deflateParams(reinterpret_cast<z_stream*>(this->m_stream), Z_DEFAULT_COMPRESSION, Z_DEFAULT_STRATEGY);
		} break;
""")]},
  files=cpp('''Compress::GzipStreamCompressor c(Compress::Quality::Noice); std::vector<uint8_t> a(100, 'a'), b(100, 'b'); c.nextChunk(a); c.reset();
	auto z = c.nextChunk(b); auto e = c.end(); z.insert(z.end(), e.begin(), e.end()); CHECK(Compress::zlibDecompressBuffer(z) == b);''')),
 dict(id="M01-long-messages-cut", property="M01",
  needs="a message longer than 256 bytes shown on a plain error page",
  breaks="long messages are cut on plain pages",
  edits={"core/server/errorpage.cpp": [('			errorResponse.body = "Backend error: " + message + "\\r\\nmaddsua/lambda\\r\\n";', '			errorResponse.body = "Backend error: " + message.substr(0, 256) + "\\r\\nmaddsua/lambda\\r\\n";')]},
  files={"demo.py": PYM + "run(build())\n", "demo.cpp": H.replace('#include "lambda.hpp"', '#include "lambda.hpp"\n#include "core/server/server_impl.hpp"') + '''int main() {
	std::string m(1000, 'm'); auto r = Server::Pages::renderErrorPage(500, m, ErrorResponseType::Plain); CHECK(r.body.text().find(m) != std::string::npos);
}
'''}),
]
import hashlib as _h
for _s in SEEDS:
    if _s["id"].startswith("X01-sha1"):
        _s["files"]["demo.cpp"] = _s["files"]["demo.cpp"].replace("F79F59D1CB3BD277569F12D28122B164E0BF1658", _h.sha1(bytes(range(1, 61))).hexdigest().upper())
