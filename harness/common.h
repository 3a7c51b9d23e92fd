// Shared by every harness: deterministic random numbers, reporting, and canonical descriptions of
// libsub's objects (made from public interfaces only).
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H

#include "collect.h"
#include "exceptions.h"
#include "raw_subtitle.h"
#include "subtitle.h"
#include <algorithm>
#include <array>
#include <charconv>
#include <cmath>
#include <cstdint>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace h {

using std::string;
using std::vector;

// ---------------------------------------------------------------- random numbers
inline uint64_t mix(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

class Rng
{
public:
	explicit Rng(uint64_t seed) : _s(mix(seed ^ 0x5eed)) {}
	uint64_t u64() { _s += 0x9e3779b97f4a7c15ULL; return mix(_s); }
	// 0..n-1
	uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
	// a..b inclusive
	int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a) + 1)); }
	bool chance(int num, int den) { return below(den) < static_cast<uint64_t>(num); }
	bool coin() { return u64() & 1; }
	double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
	template <class T> T const& pick(vector<T> const& v) { return v[below(v.size())]; }
	template <class T, size_t N> T const& pick(T const (&v)[N]) { return v[below(N)]; }
	// small numbers mostly, sometimes large
	int64_t skewed(int64_t max) {
		int64_t m = max;
		for (int i = 0; i < 3 && coin(); ++i) { m = m / 4 + 1; }
		return range(0, std::min(m, max));
	}
private:
	uint64_t _s;
};

inline uint64_t hash(string const& s)
{
	uint64_t x = 1469598103934665603ULL;
	for (unsigned char c: s) { x = (x ^ c) * 1099511628211ULL; }
	return mix(x);
}

// ---------------------------------------------------------------- reporting
inline string json(string const& s)
{
	string o = "\"";
	for (unsigned char c: s) {
		char b[8];
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') { o += "\\n"; }
		else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
		else { o += c; }
	}
	return o + "\"";
}

// printable form of arbitrary bytes
inline string show(string const& s, size_t max = 600)
{
	string o;
	for (unsigned char c: s) {
		if (o.size() > max) { o += "..."; break; }
		char b[8];
		if (c == '\n') { o += "\\n"; }
		else if (c == '\\') { o += "\\\\"; }
		else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof(b), "\\x%02x", c); o += b; }
		else { o += c; }
	}
	return o;
}

struct State
{
	string prop;
	uint64_t seed = 1;
	uint64_t index = 0;
	bool replay = false;
	FILE* out = nullptr;
	volatile uint64_t* cur = nullptr;
	std::map<string, uint64_t> counts;
	std::unordered_set<uint64_t> distinct;
	vector<string> samples;
	uint64_t evaluations = 0;
	int violations = 0;
	string scratch;
	string mode;
	bool failed_this_case = false;
	string input_note;
};

inline State& st() { static State s; return s; }

// one violation of the property by the current case; `key' names the kind of violation
inline void fail(string const& key, string const& detail)
{
	auto& s = st();
	if (s.failed_this_case && !s.replay) { return; }
	s.failed_this_case = true;
	++s.violations;
	if (s.violations <= 50 || s.replay) {
		string line = "{\"t\":\"v\",\"case\":" + std::to_string(s.index) + ",\"key\":" + json(key) + ",\"detail\":" + json(detail.substr(0, 6000))
			+ ",\"input\":" + json(s.input_note.substr(0, 20000)) + "}\n";
		fputs(line.c_str(), s.out);
		fflush(s.out);
	}
}

inline void count(string const& name, uint64_t n = 1) { st().counts[name] += n; }
// note that a non-trivial case with this content has been judged
inline void judged(string const& content) { st().distinct.insert(hash(content)); }
inline void judged(uint64_t hash) { st().distinct.insert(mix(hash)); }
inline void sample(string const& s) { if (st().samples.size() < 2) { st().samples.push_back(s.substr(0, 1500)); } }
// remember the input of the current case, for the report should it fail
inline void input(string const& s) { st().input_note = s; }

template <class F> string str(F const& v) { std::ostringstream s; s.imbue(std::locale::classic()); s << v; return s.str(); }

// whatever the locale
inline string num(double d) { char b[64]; auto const r = std::to_chars(b, b + sizeof(b), d, std::chars_format::general, 9); return string(b, r.ptr); }

// ---------------------------------------------------------------- descriptions of libsub's objects
inline string desc(sub::Time const& t) { std::ostringstream s; s.imbue(std::locale::classic()); s << t; return s.str(); }
inline string desc(sub::Colour const& c) { return "#" + num(c.r) + "/" + num(c.g) + "/" + num(c.b); }
inline string desc(sub::VerticalPosition const& v) {
	string s = "vp[";
	if (v.proportional) { s += "p" + num(*v.proportional); }
	if (v.line) { s += " l" + std::to_string(*v.line); }
	if (v.lines) { s += " of " + std::to_string(*v.lines); }
	if (v.reference) { s += " ref" + std::to_string(static_cast<int>(*v.reference)); }
	return s + "]";
}
inline string desc(sub::HorizontalPosition const& p) { return "hp[" + num(p.proportional) + " ref" + std::to_string(static_cast<int>(p.reference)) + "]"; }
inline string desc(sub::FontSize const& f) {
	string s = "fs[";
	if (f.proportional()) { s += "p" + num(*f.proportional()); }
	if (f.points()) { s += " pt" + std::to_string(*f.points()); }
	return s + "]";
}
template <class B> string desc_style(B const& b) {
	string s = show(b.text, 1000000) + "|";
	s += b.font ? "font=" + show(*b.font) : "";
	s += "|" + desc(b.font_size) + "|";
	if (b.effect) { s += "eff" + std::to_string(static_cast<int>(*b.effect)); }
	s += "|";
	if (b.effect_colour) { s += desc(*b.effect_colour); }
	s += "|" + desc(b.colour) + "|" + (b.bold ? "B" : "") + (b.italic ? "I" : "") + (b.underline ? "U" : "");
	return s;
}
inline string desc(sub::RawSubtitle const& r) {
	string s = "{" + desc_style(r) + "|" + desc(r.horizontal_position) + "|" + desc(r.vertical_position) + "|" + desc(r.from) + "->" + desc(r.to);
	if (r.fade_up) { s += " up " + desc(*r.fade_up); }
	if (r.fade_down) { s += " down " + desc(*r.fade_down); }
	return s + "}";
}
inline string desc(sub::Subtitle const& r) {
	string s = "<" + desc(r.from) + "->" + desc(r.to);
	if (r.fade_up) { s += " up " + desc(*r.fade_up); }
	if (r.fade_down) { s += " down " + desc(*r.fade_down); }
	for (auto const& l: r.lines) {
		s += "\n  line " + desc(l.horizontal_position) + desc(l.vertical_position);
		for (auto const& b: l.blocks) { s += " {" + desc_style(b) + "}"; }
	}
	return s + ">";
}
template <class T> string desc(vector<T> const& v) { string s; for (auto const& i: v) { s += desc(i); s += "\n"; } return s; }
inline string desc(std::map<string, string> const& m) { string s; for (auto const& i: m) { s += show(i.first) + "=" + show(i.second) + "\n"; } return s; }

// what an exception says about itself
inline string desc_exception(std::exception const& e) { return string(typeid(e).name()) + ": " + e.what(); }

// run f, returning its result's description or that of the exception that ended it
inline string outcome(std::function<string ()> f)
{
	try {
		return "ok\n" + f();
	} catch (sub::SubripError& e) {
		string s = "SubripError line " + std::to_string(e.line_number()) + ": " + e.what();
		for (auto const& i: e.context()) { s += "\n  " + show(i); }
		return s;
	} catch (sub::WebVTTHeaderError& e) {
		return string("WebVTTHeaderError ") + e.what();
	} catch (sub::WebVTTError& e) {
		string s = string("WebVTTError ") + e.what();
		for (auto const& i: e.context()) { s += "\n  " + show(i); }
		return s;
	} catch (std::exception& e) {
		return "exception " + desc_exception(e);
	}
}

// first difference between two multi-line texts
inline string diff(string const& a, string const& b)
{
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) { ++i; }
	size_t const from = i > 120 ? i - 120 : 0;
	return "at byte " + std::to_string(i) + ": [" + show(a.substr(from, 300)) + "] vs [" + show(b.substr(from, 300)) + "]";
}

// a file in memory
class MemFile
{
public:
	explicit MemFile(string const& s) : _s(s) { _f = _s.empty() ? fopen("/dev/null", "r") : fmemopen(const_cast<char*>(_s.data()), _s.size(), "r"); }
	~MemFile() { if (_f) { fclose(_f); } }
	MemFile(MemFile const&) = delete;
	FILE* get() const { return _f; }
private:
	string _s;
	FILE* _f;
};

inline void write_file(string const& path, string const& bytes)
{
	FILE* f = fopen(path.c_str(), "wb");
	if (!f || fwrite(bytes.data(), 1, bytes.size(), f) != bytes.size() || fclose(f) != 0) {
		fprintf(stderr, "harness: cannot write %s\n", path.c_str());
		_exit(3);
	}
}

inline string read_file(string const& path)
{
	std::ifstream f(path, std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

// the files that are open
class Census
{
public:
	Census() { for (int i = 0; i < 256; ++i) { _open[i] = fcntl(i, F_GETFD) != -1; } }
	// what is open now that was not open then; the sanitizer's own thread opens a file now and then
	string changes() const {
		string s;
		for (int k = 0; k < 40; ++k) {
			s.clear();
			Census now;
			for (int i = 0; i < 256; ++i) {
				if (!now._open[i] || _open[i]) { continue; }
				char b[512];
				ssize_t const n = readlink(("/proc/self/fd/" + std::to_string(i)).c_str(), b, sizeof(b));
				if (n >= 0) { s += "opened " + std::to_string(i) + " " + string(b, n) + "; "; }
			}
			if (s.empty()) { break; }
			usleep(5000);
		}
		return s;
	}
private:
	bool _open[256];
};

// silences the library's warnings on stdout while in scope
class QuietCout
{
public:
	QuietCout() : _old(std::cout.rdbuf(_s.rdbuf())) {}
	~QuietCout() { std::cout.rdbuf(_old); }
	string text() const { return _s.str(); }
private:
	std::ostringstream _s;
	std::streambuf* _old;
};

// ---------------------------------------------------------------- main loop
typedef std::function<void (Rng&, uint64_t)> CaseFn;

// case i is a function of (seed, i) only
// the driver wants the summary of what has been done so far
inline sig_atomic_t volatile& stop_asked() { static sig_atomic_t volatile s = 0; return s; }

inline int run(int argc, char** argv, string const& prop, CaseFn fn, std::function<void ()> before = {}, std::function<void ()> after = {})
{
	auto& s = st();
	s.prop = prop;
	uint64_t from = 0, to = 0, step = 1;
	string out = "/dev/stdout", cur, hashes;
	for (int i = 1; i + 1 < argc; i += 2) {
		string k = argv[i], v = argv[i + 1];
		if (k == "--seed") { s.seed = strtoull(v.c_str(), 0, 10); }
		else if (k == "--from") { from = strtoull(v.c_str(), 0, 10); }
		else if (k == "--to") { to = strtoull(v.c_str(), 0, 10); }
		else if (k == "--step") { step = strtoull(v.c_str(), 0, 10); }
		else if (k == "--out") { out = v; }
		else if (k == "--cur") { cur = v; }
		else if (k == "--hashes") { hashes = v; }
		else if (k == "--scratch") { s.scratch = v; }
		else if (k == "--mode") { s.mode = v; }
		else if (k == "--replay") { s.replay = v == "1"; }
		else { fprintf(stderr, "harness: unknown option %s\n", k.c_str()); return 3; }
	}
	s.out = fopen(out.c_str(), "a");
	if (!s.out) { fprintf(stderr, "harness: cannot open %s\n", out.c_str()); return 3; }
	if (!cur.empty()) {
		int fd = open(cur.c_str(), O_RDWR | O_CREAT, 0600);
		if (fd < 0 || ftruncate(fd, 8) != 0) { return 3; }
		s.cur = static_cast<uint64_t*>(mmap(0, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		close(fd);
	}
	if (before) { before(); }
	signal(SIGUSR1, [](int) { stop_asked() = 1; });
	for (uint64_t i = from; i < to && !stop_asked(); i += step) {
		if (s.cur) { *s.cur = i; }
		s.index = i;
		s.failed_this_case = false;
		s.input_note.clear();
		Rng rng(mix(s.seed * 1000003 + i) ^ hash(prop));
		try {
			fn(rng, i);
		} catch (std::exception& e) {
			fail("unexpected-exception", "exception escaped: " + desc_exception(e));
		}
		++s.evaluations;
	}
	if (after) { after(); }
	string line = "{\"t\":\"s\",\"evaluations\":" + std::to_string(s.evaluations) + ",\"violations\":" + std::to_string(s.violations) + ",\"counts\":{";
	bool first = true;
	for (auto const& i: s.counts) { line += (first ? "" : ",") + json(i.first) + ":" + std::to_string(i.second); first = false; }
	line += "},\"samples\":[";
	first = true;
	for (auto const& i: s.samples) { line += (first ? "" : ",") + json(i); first = false; }
	line += "]}\n";
	fputs(line.c_str(), s.out);
	fclose(s.out);
	if (!hashes.empty()) {
		FILE* f = fopen(hashes.c_str(), "wb");
		if (!f) { return 3; }
		for (auto i: s.distinct) { if (fwrite(&i, 8, 1, f) != 1) { return 3; } }
		fclose(f);
	}
	return 0;
}

}

#endif
