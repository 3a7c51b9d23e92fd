// C19: a write returns only when the complete file is there, whatever goes wrong.
#include "scenarios.h"
#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>

using namespace h;

// ---------------------------------------------------------------- faults in system calls
namespace fault {

enum Kind { NONE, FAIL_AT_BYTE, FAIL_CALL, SHORT, INTERRUPT, FAIL_CLOSE, FAIL_OPEN };
bool armed = false;
int kind = NONE;
int error = 0;
uint64_t at = 0;         // byte, or number of the call
bool once = false;
uint64_t bytes = 0, calls = 0, hits = 0;
Rng* rng = nullptr;

void arm(int k, int e, uint64_t a, bool o, Rng& r) { kind = k; error = e; at = a; once = o; bytes = calls = hits = 0; rng = &r; armed = true; }
void disarm() { armed = false; }

// how many of n bytes may be written; -1 for an error
ssize_t allow(size_t n)
{
	++calls;
	switch (kind) {
	case FAIL_AT_BYTE:
		if (bytes + n <= at || (once && hits)) { return n; }
		if (bytes < at) { return at - bytes; }
		++hits;
		return -1;
	case FAIL_CALL:
		if (calls - 1 < at || (once && hits)) { return n; }
		++hits;
		return -1;
	case SHORT:
		++hits;
		return n ? 1 + rng->below(n) : 0;
	case INTERRUPT:
		if (rng->chance(1, 2)) { ++hits; error = EINTR; return -1; }
		return n;
	default:
		return n;
	}
}

}

extern "C" ssize_t write(int fd, void const* p, size_t n)
{
	if (fault::armed) {
		ssize_t const a = fault::allow(n);
		if (a < 0) { errno = fault::error; return -1; }
		n = a;
	}
	ssize_t const x = syscall(SYS_write, fd, p, n);
	if (fault::armed && x > 0) { fault::bytes += x; }
	return x;
}

extern "C" ssize_t our_pwrite(int fd, void const* p, size_t n, off_t at) __asm__("pwrite64");
extern "C" ssize_t our_pwrite(int fd, void const* p, size_t n, off_t at)
{
	if (fault::armed) {
		ssize_t const a = fault::allow(n);
		if (a < 0) { errno = fault::error; return -1; }
		n = a;
	}
	ssize_t const x = syscall(SYS_pwrite64, fd, p, n, at);
	if (fault::armed && x > 0) { fault::bytes += x; }
	return x;
}

extern "C" ssize_t writev(int fd, struct iovec const* v, int k)
{
	if (!fault::armed) { return syscall(SYS_writev, fd, v, k); }
	size_t n = 0;
	string s;
	for (int i = 0; i < k; ++i) { s.append(static_cast<char const*>(v[i].iov_base), v[i].iov_len); n += v[i].iov_len; }
	return write(fd, s.data(), n);
}

// A stream of the C library's own would call the kernel without passing by the above; one that is opened while there are faults about
// (but for libstdc++'s, which only takes its descriptor) is made to.
static FILE* open_stream(char const* name, char const* mode, void* caller, FILE* (*real)(char const*, char const*))
{
	FILE* const f = real(name, mode);
	Dl_info who;
	if (!f || !fault::armed || !strpbrk(mode, "wa+") || (dladdr(caller, &who) && who.dli_fname && strstr(who.dli_fname, "libstdc++"))) { return f; }
	int const fd = fcntl(fileno(f), F_DUPFD_CLOEXEC, 0);
	int const flags = fault::armed;
	fault::armed = false;
	fclose(f);
	fault::armed = flags;
	cookie_io_functions_t io;
	io.read = [](void* c, char* b, size_t n) -> ssize_t { return syscall(SYS_read, int(intptr_t(c)), b, n); };
	io.write = [](void* c, char const* b, size_t n) -> ssize_t {
		// the library's own streams write the rest after a short write, and these take one for an error
		size_t done = 0;
		while (done < n) {
			ssize_t const x = write(int(intptr_t(c)), b + done, n - done);
			if (x <= 0) { break; }
			done += x;
		}
		return done;
	};
	io.seek = [](void* c, off64_t* to, int whence) -> int { off64_t const x = lseek64(int(intptr_t(c)), *to, whence); if (x < 0) { return -1; } *to = x; return 0; };
	io.close = [](void* c) -> int { return close(int(intptr_t(c))); };
	return fopencookie(reinterpret_cast<void*>(intptr_t(fd)), mode, io);
}

extern "C" FILE* our_fopen(char const* name, char const* mode) __asm__("fopen");
extern "C" FILE* our_fopen(char const* name, char const* mode)
{
	static auto real = reinterpret_cast<FILE* (*)(char const*, char const*)>(dlsym(RTLD_NEXT, "fopen"));
	return open_stream(name, mode, __builtin_return_address(0), real);
}

extern "C" FILE* our_fopen64(char const* name, char const* mode) __asm__("fopen64");
extern "C" FILE* our_fopen64(char const* name, char const* mode)
{
	static auto real = reinterpret_cast<FILE* (*)(char const*, char const*)>(dlsym(RTLD_NEXT, "fopen64"));
	return open_stream(name, mode, __builtin_return_address(0), real);
}

extern "C" int fclose(FILE* f)
{
	static auto real = reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fclose"));
	int const x = real(f);
	if (fault::armed && fault::kind == fault::FAIL_CLOSE && !fault::hits) { ++fault::hits; errno = fault::error; return EOF; }
	return x;
}

extern "C" int close(int fd)
{
	int const x = syscall(SYS_close, fd);
	if (fault::armed && fault::kind == fault::FAIL_CLOSE && !fault::hits) { ++fault::hits; errno = fault::error; return -1; }
	return x;
}

namespace {

void limit(int what, rlim_t n)
{
	struct rlimit l;
	getrlimit(what, &l);
	l.rlim_cur = std::min(n, l.rlim_max);
	if (setrlimit(what, &l) != 0) { fprintf(stderr, "harness: setrlimit\n"); _exit(3); }
}

struct Attempt { bool threw = false; string what; string bytes; string files; };

// one write, with something to be done just before and just after
Attempt attempt(vector<sub::Subtitle> const& subs, WriteArgs const& a, string const& path, std::function<void ()> before, std::function<void ()> after)
{
	Attempt x;
	Census const files;
	before();
	try {
		write(subs, a, path);
	} catch (std::exception& e) {
		x.threw = true;
		x.what = e.what();
	}
	after();
	x.files = files.changes();
	struct stat s;
	if (stat(path.c_str(), &s) == 0 && S_ISREG(s.st_mode)) { x.bytes = read_file(path); }
	return x;
}

// a write that met `hits' faults; true if all is well
bool judge(Attempt const& x, string const& whole, string const& what, uint64_t hits)
{
	if (!x.threw && x.bytes != whole) {
		fail("passed off", what + ": no error, though of " + std::to_string(whole.size()) + " bytes " + (x.bytes.size() < whole.size() ? "only " + std::to_string(x.bytes.size()) + " are" : "other ones are") + " in the file");
		return false;
	}
	if (x.threw && !hits) { fail("refused", what + ": nothing was wrong, but " + x.what); return false; }
	if (!x.files.empty()) { fail("open files", what + ": " + x.files); return false; }
	count(x.threw ? "failures-reported" : "complete");
	return true;
}

void c19(Rng& r, uint64_t i)
{
	QuietCout q;
	SubOpts o;
	uint64_t const m = mix(i);
	o.max_subs = m % 8 == 0 ? 200 : m % 8 == 1 ? 60 : 6;
	vector<GenSub> model;
	auto const a = gen_args(r);
	auto const subs = gen_subtitles(r, o, model);
	string const path = st().scratch + "/w.stl";
	string whole;
	try {
		whole = write_to_string(subs, a);
	} catch (std::exception&) {
		count("refused-anyway");
		return;
	}
	size_t const n = whole.size();
	judged(whole);
	input(std::to_string(subs.size()) + " subtitles, " + std::to_string(n) + " bytes\n" + desc(subs));
	auto nothing = []() {};
	{
		// over what was there before
		string const old(r.chance(1, 2) ? n * 2 + 5 : r.below(n), 'o');
		write_file(path, old);
		auto const x = attempt(subs, a, path, nothing, nothing);
		if (!judge(x, whole, "over an old file of " + std::to_string(old.size()) + " bytes", 0)) { return; }
		unlink(path.c_str());
	}
	// ------------------------------------------------------------ no room after so many bytes
	vector<size_t> limits;
	if (m % 64 < 2 && n < 6000) {
		for (size_t k = 0; k <= n + 1; ++k) { limits.push_back(k); }
		count("every-byte");
	} else {
		limits = { 0, 1, 1023, 1024, 1025, n - 128, n - 127, n - 2, n - 1, n, n + 1, n + 1000 };
		for (int k = 0; k < 12; ++k) { limits.push_back(r.below(n + 1)); }
		for (size_t k: { 4095, 4096, 8190, 8191, 8192, 16382, 16384 }) { if (k < n) { limits.push_back(k); } }
	}
	for (auto k: limits) {
		bool const there = r.chance(1, 4);
		if (there) { write_file(path, string(r.below(100), 'x')); }
		auto const x = attempt(subs, a, path, [&]() { limit(RLIMIT_FSIZE, k); }, [&]() { limit(RLIMIT_FSIZE, RLIM_INFINITY); });
		if (!judge(x, whole, "room for " + std::to_string(k) + " bytes", k < n)) { return; }
		if (k < n) { count("out-of-room"); if (!x.threw) { fail("passed off", "room for " + std::to_string(k) + " bytes"); return; } }
		unlink(path.c_str());
	}
	// ------------------------------------------------------------ errors from system calls
	static const int errors[] = { EIO, ENOSPC, EDQUOT, EFBIG, EPIPE, EAGAIN, EBADF };
	for (int k = 0; k < 24; ++k) {
		int const kind = 1 + k % 5;
		int const e = r.pick(errors);
		bool const once = r.coin();
		uint64_t const at = kind == fault::FAIL_AT_BYTE ? r.below(n) : kind == fault::FAIL_CALL ? r.below(2 + n / 8191) : 0;
		auto const x = attempt(subs, a, path, [&]() { fault::arm(kind, e, at, once, r); }, [&]() { fault::disarm(); });
		static char const* names[] = { "", "error at byte ", "error in call ", "short writes ", "interrupted writes ", "error in closing " };
		string const what = string(names[kind]) + std::to_string(at) + " (" + strerror(e) + (once ? ", once" : "") + ", met " + std::to_string(fault::hits) + ")";
		if (!judge(x, whole, what, fault::hits)) { return; }
		bool const final_error = kind == fault::FAIL_AT_BYTE || kind == fault::FAIL_CALL || kind == fault::FAIL_CLOSE;
		// what was not written may have been tried again, but an error in closing means nobody knows
		if (kind == fault::FAIL_CLOSE && fault::hits && !x.threw) { fail("passed off", what + ": no error"); return; }
		if (fault::hits) { count(final_error ? kind == fault::FAIL_CLOSE ? "close-errors" : once ? "errors-once" : "errors-lasting" : kind == fault::SHORT ? "short-writes" : "interruptions"); }
		unlink(path.c_str());
	}
	// ------------------------------------------------------------ no file to write to
	{
		string const d = st().scratch + "/dir";
		mkdir(d.c_str(), 0700);
		write_file(path, "x");
		if (symlink("/dev/full", (st().scratch + "/full").c_str()) != 0 || symlink("loop", (st().scratch + "/loop").c_str()) != 0) {}
		struct { string path, what; } const bad[] = {
			{ st().scratch + "/missing/w.stl", "a missing directory" },
			{ d, "a directory" },
			{ path + "/w.stl", "under a file" },
			{ st().scratch + "/full", "a full device" },
			{ st().scratch + "/loop", "a loop of links" },
			{ st().scratch + "/" + string(300, 'n'), "a name that is too long" },
			{ "", "no name" },
		};
		bool ok = true;
		for (auto const& b: bad) {
			auto const x = attempt(subs, a, b.path, nothing, nothing);
			if (!x.threw) { fail("passed off", b.what + ": no error"); ok = false; break; }
			if (!x.files.empty()) { fail("open files", b.what + ": " + x.files); ok = false; break; }
			count("nowhere-to-write");
		}
		rmdir(d.c_str());
		unlink((st().scratch + "/full").c_str());
		unlink((st().scratch + "/loop").c_str());
		if (!ok) { return; }
		// no more files can be opened
		struct rlimit l;
		getrlimit(RLIMIT_NOFILE, &l);
		auto const x = attempt(subs, a, path, [&]() { limit(RLIMIT_NOFILE, 0); }, [&]() { setrlimit(RLIMIT_NOFILE, &l); });
		if (!x.threw) { fail("passed off", "no more files can be opened: no error"); return; }
		if (!x.files.empty()) { fail("open files", "no more files can be opened: " + x.files); return; }
		count("nowhere-to-write");
		unlink(path.c_str());
	}
	// and all is as before
	auto const x = attempt(subs, a, path, nothing, nothing);
	if (!judge(x, whole, "after all those failures", 0)) { return; }
	unlink(path.c_str());
}

}

int main(int argc, char** argv)
{
	signal(SIGXFSZ, SIG_IGN);
	signal(SIGPIPE, SIG_IGN);
	return run(argc, argv, "C19", c19);
}
