// text codecs and SHA-1: one call per line
#include "util.hpp"
#include "core/encoding/encoding.hpp"
#include "core/crypto/crypto.hpp"
#include <exception>
#include <memory>

using namespace drv;
using namespace Lambda;

static std::unique_ptr<Crypto::SHA1> sha;

static std::string apply(const std::vector<std::string>& w) {
	const auto& op = w[0];
	const auto x = w.size() > 1 ? unhex(w[1]) : std::string();
	try {
		if (op == "b64e") return "v " + hex(Encoding::toBase64(bytes(x)));
		if (op == "b64d") return "v " + hex(Encoding::fromBase64(x));
		if (op == "hexe") return "v " + hex(Encoding::toHex(bytes(x)));
		if (op == "hexd") return "v " + hex(Encoding::fromHex(x));
		if (op == "urle") return "v " + hex(Encoding::encodeURIComponent(x));
		if (op == "urld") return "v " + hex(Encoding::decodeURIComponent(x));
		if (op == "new") { sha = std::make_unique<Crypto::SHA1>(); return "done"; }
		if (op == "reset") { sha->reset(); return "done"; }
		if (op == "upd") { sha->update(bytes(x)); return "done"; }
		if (op == "upds") { sha->update(x); return "done"; }
		if (op == "fill") { sha->update(std::vector<uint8_t>(std::stoul(w[2]), (uint8_t)x[0])); return "done"; }
		if (op == "digest") return "v " + hex(sha->digest());
	} catch (const std::exception& e) { return "throw"; }
	catch (...) { return "throw"; }
	return "?";
}

int main() {
	std::string line;
	while (drv::next(line)) {
		auto w = words(line);
		if (w.empty()) continue;
		out(apply(w));
	}
	return 0;
}
