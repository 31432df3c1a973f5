// drives the virtual filesystem: sessions with a fake clock, snapshots, perturbed schedules
#include "util.hpp"
#if !defined(__SANITIZE_THREAD__)
#define DRV_PERTURB	// (the race detector has to see the locks itself)
#endif
#include "perturb.hpp"
#include "extra/vfs/vfs.hpp"
#include <memory>
#include <filesystem>
#include <mutex>
#include <thread>
#include <sys/time.h>

using namespace drv;
using Lambda::VirtualFilesystem;

static std::atomic<long> fakeNow { 0 };
extern "C" time_t time(time_t* p) noexcept {
	time_t r;
	if (fakeNow) r = fakeNow;
	else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
	if (p) *p = r;
	return r;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
	if (fakeNow && id == CLOCK_REALTIME) { ts->tv_sec = fakeNow; ts->tv_nsec = 0; return 0; }
	return syscall(SYS_clock_gettime, id, ts);
}

static std::string times(time_t cr, time_t mo) { return std::to_string(cr) + " " + std::to_string(mo); }

static std::unique_ptr<VirtualFilesystem> fs = std::make_unique<VirtualFilesystem>();

static std::string apply(const std::vector<std::string>& w) {
		auto arg = [&](size_t i) { return unhex(w[i]); };
		const auto& op = w[0];
		if (op == "fresh") { fs = std::make_unique<VirtualFilesystem>(); return ("ok"); }
		else if (op == "clock") { fakeNow = atol(w[1].c_str()); return ("ok"); }
		else if (op == "perturb") { perturbSeed = strtoull(w[1].c_str(), nullptr, 10); return ("ok"); }
		else if (op == "write") { fs->write(arg(1), arg(2)); return ("ok"); }
		else if (op == "writev") { fs->write(arg(1), bytes(arg(2))); return ("ok"); }
		else if (op == "remove") { fs->remove(arg(1)); return ("ok"); }
		else if (op == "move") {
			try { fs->move(arg(1), arg(2)); return ("ok"); } catch (const std::exception&) { return ("threw"); }
		} else if (op == "read") {
			auto r = fs->read(arg(1));
			if (!r) return ("none");
			else {
				const bool agree = r->text() == std::string(r->buffer.begin(), r->buffer.end()) && r->size() == r->buffer.size();
				return ((agree ? "file " : "textdiffers ") + hex(r->name) + " " + times(r->created, r->modified) + " " + hex(r->buffer));
			}
		} else if (op == "info") {
			auto r = fs->fileInfo(arg(1));
			if (!r) return ("none");
			else return ("info " + hex(r->name) + " " + times(r->created, r->modified) + " " + std::to_string(r->size));
		} else if (op == "list") {
			std::string s = "list";
			for (auto& r : fs->listAll()) s += " " + hex(r.name) + "," + std::to_string(r.created) + "," + std::to_string(r.modified) + "," + std::to_string(r.size);
			return (s);
		} else if (op == "stats") {
			auto& s = fs->stats();
			return (std::to_string(s.totalFiles) + " " + std::to_string(s.totalSize));
		} else if (op == "save") {
			const auto p = arg(1);
			const bool before = std::filesystem::exists(p);
			std::string r = "ok";
			try { fs->saveSnapshot(p); } catch (const std::exception& e) { r = "threw"; } catch (...) { r = "threwother"; }
			return (r + (!before && std::filesystem::exists(p) ? " created" : " -"));
		} else if (op == "load") {
			std::string r = "ok";
			try { fs->loadSnapshot(arg(1)); } catch (const std::exception& e) { r = "threw"; } catch (...) { r = "threwother"; }
			return (r);
		}
		return "?";
}

struct Ev { int th; bool ret; std::string text; };

int main() {
	std::string line;
	std::vector<std::vector<std::vector<std::string>>> progs;
	while (std::getline(std::cin, line)) {
		auto w = words(line);
		if (w.empty()) continue;
		alarm(25);	// a call that does not end kills the process, which the trace shows
		if (w[0] == "prog") { progs.emplace_back(); out("ok"); }
		else if (w[0] == "p") { progs.back().push_back({ w.begin() + 1, w.end() }); out("ok"); }
		else if (w[0] == "run") {
			// run <seed>; seed -1: without recording, for the race detector (recording would order the threads)
			const bool silent = w[1] == "-1";
			if (!silent) perturbSeed = strtoull(w[1].c_str(), nullptr, 10);
			std::vector<Ev> evs;
			std::mutex em;
			std::atomic<bool> start { false };
			std::vector<std::thread> ths;
			auto note = [&](int t, bool ret, const std::string& text) {
				std::lock_guard<std::mutex> l(em);
				evs.push_back({ t, ret, text });
			};
			for (size_t t = 0; t < progs.size(); t++) ths.emplace_back([&, t]() {
				while (!start) std::this_thread::yield();
				for (const auto& op : progs[t]) {
					if (silent) { apply(op); continue; }
					std::string text;
					for (const auto& x : op) text += (text.size() ? " " : "") + x;
					note(t, false, text);
					const auto r = apply(op);
					note(t, true, r);
				}
			});
			start = true;
			for (auto& t : ths) t.join();
			perturbSeed = 0;
			for (const auto& e : evs) out((e.ret ? "ret " : "call ") + std::to_string(e.th) + " " + e.text);
			progs.clear();
			out("end");
		} else out(apply(w));
		alarm(0);
	}
	perturbSeed = 0;
	_exit(0);
}
