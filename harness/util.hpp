#pragma once
// small helpers shared by the drivers
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/time.h>

namespace drv {
	inline std::string unhex(const std::string& h) {
		if (h == "-") return {};
		auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
		std::string r;
		r.reserve(h.size() / 2);
		for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)(v(h[i]) * 16 + v(h[i + 1])));
		return r;
	}
	template <class C> inline std::string hex(const C& s) {
		static const char* d = "0123456789abcdef";
		std::string r;
		r.reserve(s.size() * 2 + 1);
		for (auto ch : s) { auto c = (uint8_t)ch; r.push_back(d[c >> 4]); r.push_back(d[c & 15]); }
		return r.empty() ? "-" : r;
	}
	inline std::vector<std::string> words(const std::string& line) {
		std::vector<std::string> w;
		std::string t;
		for (char c : line) {
			if (c == ' ' || c == '\t') { if (t.size()) w.push_back(t); t.clear(); }
			else t.push_back(c);
		}
		if (t.size()) w.push_back(t);
		return w;
	}
	inline std::vector<uint8_t> bytes(const std::string& s) { return std::vector<uint8_t>(s.begin(), s.end()); }
	// the next line; a call that does not end kills the process, which the trace shows
	inline bool next(std::string& line) {
		alarm(0);
		if (!std::getline(std::cin, line)) return false;
		itimerval t {};
		t.it_value.tv_sec = 15;
		setitimer(ITIMER_PROF, &t, nullptr);
		alarm(90);
		return true;
	}
	inline void out(const std::string& s) { std::cout << s << '\n' << std::flush; }
}
