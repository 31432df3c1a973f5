// drives the key-value storage: sequential sessions, gated and free-running threads
#include "util.hpp"
#include "extra/kvstorage/kvstorage.hpp"

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <cerrno>
#include <fstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <fcntl.h>

using namespace drv;
using Lambda::Storage::LocalStorage;

static std::atomic<int> failWrites { 0 };
static thread_local int gateAt = 0;		// pause this thread at its n-th file write
static thread_local int writesSeen = 0;
static std::atomic<bool> paused { false }, resumed { false };

static bool isFile(int fd) {
	if (fd <= 2) return false;
	struct stat st;
	return !fstat(fd, &st) && S_ISREG(st.st_mode);
}
static void gate(int fd) {
	if (!gateAt || !isFile(fd)) return;
	if (++writesSeen != gateAt) return;
	paused = true;
	while (!resumed) std::this_thread::sleep_for(std::chrono::microseconds(200));
}
extern "C" ssize_t write(int fd, const void* p, size_t n) {
	if (failWrites && isFile(fd)) { errno = ENOSPC; return -1; }
	gate(fd);
	return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) {
	if (failWrites && isFile(fd)) { errno = ENOSPC; return -1; }
	gate(fd);
	return syscall(SYS_writev, fd, v, n);
}

static std::unique_ptr<LocalStorage> db;

static std::string apply(const std::vector<std::string>& w) {
	const auto& op = w[0];
	const auto k = w.size() > 1 ? unhex(w[1]) : std::string();
	const auto v = w.size() > 2 ? unhex(w[2]) : std::string();
	try {
		if (op == "set") { db->setItem(k, v); return "done"; }
		if (op == "get") return "v " + hex(db->getItem(k));
		if (op == "has") return db->hasItem(k) ? "true" : "false";
		if (op == "remove") { db->removeItem(k); return "done"; }
		if (op == "clear") { db->clear(); return "done"; }
		if (op == "size") return std::to_string(db->size());
	} catch (const std::exception& e) { return "refused"; }
	return "?";
}

struct Ev { int th; bool ret; std::string text; };

int main(int argc, char** argv) {

	// batch mode for crash runs: progress goes to a shared mapping, so that it costs no system call
	if (argc > 3 && std::string(argv[1]) == "batch") {
		int fd = open(argv[3], O_RDWR | O_CREAT, 0600);
		if (ftruncate(fd, 65536)) return 9;
		auto* prog = (volatile int*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		close(fd);
		std::ifstream in(argv[2]);
		std::string line;
		std::vector<std::string> lines;
		while (std::getline(in, line)) lines.push_back(line);
		in.close();
		int i = 0;
		for (const auto& l : lines) {
			auto w = words(l);
			prog[1] = i;
			try {
				if (w[0] == "open") db = std::make_unique<LocalStorage>(unhex(w[1]));
				else if (w[0] == "close") db.reset();
				else apply(w);
			} catch (const std::exception& e) { prog[2] = 1; _exit(3); }
			prog[0] = ++i;
		}
		_exit(0);
	}

	std::string line;
	std::vector<std::vector<std::vector<std::string>>> progs;
	while (std::getline(std::cin, line)) {
		auto w = words(line);
		if (w.empty()) continue;
		if (w[0] == "open" || w[0] == "opendef") {
			try {
				db.reset();
				if (w[0] == "open") db = std::make_unique<LocalStorage>(unhex(w[1]));
				else db = std::make_unique<LocalStorage>();
				out("opened");
			} catch (const std::exception& e) { db.reset(); out("failed"); }
		} else if (w[0] == "close") { db.reset(); out("closed"); }
		else if (w[0] == "fail") { failWrites = atoi(w[1].c_str()); out("ok"); }
		else if (w[0] == "prog") { progs.emplace_back(); out("ok"); }
		else if (w[0] == "p") { progs.back().push_back({ w.begin() + 1, w.end() }); out("ok"); }
		else if (w[0] == "run") {
			// run <gate>: 0 = free running; n = thread 0 is held at its n-th file write while the others run
			// -1: free running without recording, for the race detector (recording would order the threads)
			const bool silent = w[1] == "-1";
			const int g = silent ? 0 : atoi(w[1].c_str());
			std::vector<Ev> evs;
			std::mutex em;
			std::atomic<int> done { 0 };
			paused = false; resumed = g == 0;
			std::atomic<bool> start { false };
			auto body = [&](int t) {
				if (t == 0 && g) { gateAt = g; writesSeen = 0; }
				while (!start) std::this_thread::yield();
				for (const auto& op : progs[t]) {
					if (silent) { apply(op); continue; }
					std::string text;
					for (const auto& x : op) text += (text.size() ? " " : "") + x;
					{ std::lock_guard l(em); evs.push_back({ t, false, text }); }
					auto r = apply(op);
					{ std::lock_guard l(em); evs.push_back({ t, true, r }); }
				}
				gateAt = 0;
				done++;
			};
			std::vector<std::thread> ths;
			if (g) {
				start = true;
				ths.emplace_back(body, 0);
				while (!paused && done == 0) std::this_thread::sleep_for(std::chrono::microseconds(100));
				for (size_t t = 1; t < progs.size(); t++) ths.emplace_back(body, t);
				const int others = progs.size() - 1, base = done;
				for (int i = 0; i < 60 && done < base + others; i++) std::this_thread::sleep_for(std::chrono::microseconds(500));
				resumed = true;
			} else {
				for (size_t t = 0; t < progs.size(); t++) ths.emplace_back(body, t);
				start = true;
			}
			for (auto& t : ths) t.join();
			for (auto& e : evs) out((e.ret ? "ret " : "call ") + std::to_string(e.th) + " " + e.text);
			progs.clear();
			out("end");
		} else if (db) out(apply(w));
		else out("nodb");
	}
}
