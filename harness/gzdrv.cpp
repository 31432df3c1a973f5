// compression codecs on files of the working directory
#include "util.hpp"
#include "core/compression/compression.hpp"
#include <exception>
#include <fstream>
#include <iterator>
#include <map>
#include <memory>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

using namespace drv;
using namespace Lambda::Compress;

typedef std::vector<uint8_t> Bytes;
static std::map<std::string, std::unique_ptr<GzipStreamCompressor>> C;
static std::map<std::string, std::unique_ptr<GzipStreamDecompressor>> D;

static Bytes load(const std::string& n) {
	std::ifstream f(n, std::ios::binary);
	return Bytes(std::istreambuf_iterator<char>(f), {});
}
static std::string store(const std::string& n, const Bytes& b, bool app) {
	std::ofstream f(n, app ? std::ios::binary | std::ios::app : std::ios::binary);
	f.write(reinterpret_cast<const char*>(b.data()), b.size());
	return "n " + std::to_string(b.size());
}
static Bytes part(const std::string& n, const std::string& a, const std::string& b) {
	static std::string name;
	static Bytes data;
	if (name != n) { data = load(n); name = n; }
	return Bytes(data.begin() + std::stoul(a), data.begin() + std::stoul(b));
}

template <class T, class M> static std::string moves(M& m, const std::vector<std::string>& w, const std::string& op) {
	if (op == "move") { auto t = std::make_unique<T>(std::move(*m.at(w[2]))); m.erase(w[2]); m[w[1]] = std::move(t); return "done"; }
	*m.at(w[1]) = std::move(*m.at(w[2]));
	m.erase(w[2]);
	return "done";
}

static std::string apply(const std::vector<std::string>& w) {
	const auto& op = w[0];
	try {
		if (op == "reset") { C.clear(); D.clear(); return "done"; }
		if (op == "held") return "n " + std::to_string(__sanitizer_get_current_allocated_bytes() / 1024);
		if (op == "comp") {
			const auto q = static_cast<Quality>(std::stoi(w[2]));
			const auto in = load(w[3]);
			Bytes r;
			if (w[1] == "br") r = brotliCompressBuffer(in, q);
			else r = zlibCompressBuffer(in, q, w[1] == "gzip" ? ZlibSetHeader::Gzip : w[1] == "deflate" ? ZlibSetHeader::Defalte : ZlibSetHeader::Raw);
			return store(w[4], r, false);
		}
		if (op == "dec") {
			const auto in = load(w[2]);
			return store(w[3], w[1] == "br" ? brotliDecompressBuffer(in) : zlibDecompressBuffer(in), false);
		}
		if (op == "cnew") { C[w[1]] = std::make_unique<GzipStreamCompressor>(static_cast<Quality>(std::stoi(w[2]))); return "done"; }
		if (op == "cfeed") {
			auto b = part(w[2], w[3], w[4]);
			if (w[5] == "d") return store(w[6], C.at(w[1])->nextChunk(b), true);
			return store(w[6], C.at(w[1])->nextChunk(b, w[5] == "1" ? GzipStreamCompressor::StreamFlush::Finish : GzipStreamCompressor::StreamFlush::Noflush), true);
		}
		if (op == "cend") return store(w[2], C.at(w[1])->end(), true);
		if (op == "creset") { C.at(w[1])->reset(); return "done"; }
		if (op == "cmove" || op == "cmassign") return moves<GzipStreamCompressor>(C, w, op.substr(1));
		if (op == "dnew") { D[w[1]] = std::make_unique<GzipStreamDecompressor>(); return "done"; }
		if (op == "dfeed") { auto b = part(w[2], w[3], w[4]); return store(w[5], D.at(w[1])->nextChunk(b), true); }
		if (op == "ddone") return D.at(w[1])->isDone() ? "true" : "false";
		if (op == "dreset") { D.at(w[1])->reset(); return "done"; }
		if (op == "dmove" || op == "dmassign") return moves<GzipStreamDecompressor>(D, w, op.substr(1));
	} catch (const std::exception& e) { return "throw"; }
	catch (...) { return "throw"; }
	return "?";
}

int main() {
	std::string line;
	while (drv::next(line)) {
		auto w = words(line);
		if (w.empty()) continue;
		out(apply(w));
	}
	return 0;
}
