// C15: threads that read, collect, dump, write and convert, each with documents of its own, from the first use of
// the library in a process.  Every case is a process of its own; what each thread must get is what another new
// process got for that document with one thread.
#include "scenarios.h"
#include "iso6937.h"
#include <atomic>
#include <sys/wait.h>

using namespace h;

struct Work
{
	Scenario s;
	int delivery = 0;
	int first = 0;        // 0 documents first, 1 codec first, 2 codec only
	string text;
	int naps = 0;
	uint64_t seed = 0;
};

// wide characters of UTF-8, without the library
static std::wstring wide(string const& s)
{
	std::wstring w;
	for (auto c: iso::from_utf8(s)) { w += static_cast<wchar_t>(c); }
	return w;
}

static string codec(Work const& w)
{
	return outcome([&]() {
		string const e = sub::utf16_to_iso6937(wide(w.text));
		string back;
		for (wchar_t c: sub::iso6937_to_utf16(e.c_str())) { back += utf8(c); }
		return show(e, 100000) + "\n" + show(back, 100000);
	});
}

static void values(string& o, Rng& r)
{
	o += outcome([&]() {
		sub::Time t = sub::Time::from_hms(r.below(10), r.below(60), r.below(60), r.below(1000));
		sub::Time u = sub::Time::from_frames(r.below(100000), sub::Rational(25, 1));
		bool const less = t < u;
		t.add(u);
		t.scale(1.5);
		return desc(t) + (less ? "<" : ">=");
	});
}

static string work(Work const& w, int id)
{
	Rng r(w.seed);
	string o;
	auto nap = [&]() {
		switch (w.naps) {
		case 1: std::this_thread::yield(); break;
		case 2: if (r.chance(1, 3)) { usleep(r.below(300)); } break;
		default: break;
		}
	};
	if (w.first >= 1) { o += codec(w); nap(); }
	if (w.first != 2) {
		ProcessOpts p;
		p.delivery = w.delivery;
		p.tag = "t" + std::to_string(id);
		p.seed = w.seed;
		nap();
		o += process(w.s, p).all();
		nap();
	}
	if (w.first != 1) { o += codec(w); }
	Rng v(w.seed + 1);
	values(o, v);
	return o;
}

static int child(std::function<void (int)> f, string& out)
{
	int p[2];
	if (pipe(p) != 0) { _exit(3); }
	fflush(0);
	pid_t const pid = fork();
	if (pid < 0) { _exit(3); }
	if (pid == 0) {
		close(p[0]);
		f(p[1]);
		_exit(0);
	}
	close(p[1]);
	char b[65536];
	ssize_t n;
	while ((n = ::read(p[0], b, sizeof(b))) > 0) { out.append(b, n); }
	close(p[0]);
	int status = 0;
	waitpid(pid, &status, 0);
	return WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
}

static void send(int fd, string const& s)
{
	uint64_t const n = s.size();
	string const m = string(reinterpret_cast<char const*>(&n), 8) + s;
	size_t at = 0;
	while (at < m.size()) { ssize_t const x = ::write(fd, m.data() + at, m.size() - at); if (x <= 0) { _exit(3); } at += x; }
}

static vector<string> received(string const& s)
{
	vector<string> o;
	for (size_t at = 0; at + 8 <= s.size(); ) {
		uint64_t n;
		memcpy(&n, s.data() + at, 8);
		o.push_back(s.substr(at + 8, n));
		at += 8 + n;
	}
	return o;
}

static void c15(Rng& r, uint64_t i)
{
	int const threads = r.pick(vector<int>{ 2, 3, 4, 8 });
	int const only = r.chance(1, 2) ? static_cast<int>(r.below(FORMATS)) : -1;
	bool const same = r.chance(1, 4);
	int const first = r.below(4);
	vector<Work> w;
	for (int t = 0; t < threads; ++t) {
		Work k;
		if (same && t) {
			k = w[0];
		} else {
			ScenarioOpts o;
			o.damage_percent = 20;
			o.only = only;
			o.huge = false;
			o.size = 4;
			k.s = gen_scenario(r, o);
			// files of the test's own are not what this is about
			k.delivery = k.s.format == STL_TEXT || k.s.format == STL_BINARY ? (r.coin() ? AS_STRING : AS_PIPE) : (r.coin() ? AS_STRING : AS_MEMORY_FILE);
			k.first = std::min(first, 2);
			k.text = r.coin() ? iso::gen_repertoire_text(r, 40) : gen_text(r, TextOpts());
			k.seed = r.u64();
		}
		k.naps = r.below(3);
		w.push_back(k);
	}
	string shown, all;
	for (auto const& k: w) { shown += string(format_name(k.s.format)) + " " + show(k.s.bytes, 300) + "\n"; all += k.s.bytes; }
	input(shown);
	judged(all + std::to_string(i));
	sample(shown);

	// alone: each in a process of its own, and so first
	vector<string> alone(threads);
	for (int t = 0; t < threads; ++t) {
		if (same && t) { alone[t] = alone[0]; continue; }
		string got;
		int const rc = child([&](int fd) { send(fd, work(w[t], 100)); }, got);
		auto const v = received(got);
		if (rc != 0 || v.size() != 1) { fprintf(stderr, "alone: child ended with %d\n", rc); fflush(stderr); _exit(rc == 3 ? 3 : 74); }
		alone[t] = v[0];
	}
	// together
	int const rounds = st().mode == "stress" ? 4 : 1;
	string got;
	int const rc = child([&](int fd) {
		for (int round = 0; round < rounds; ++round) {
			vector<string> results(threads);
			std::atomic<int> ready(0);
			vector<std::thread> v;
			for (int t = 0; t < threads; ++t) {
				v.emplace_back([&, t]() {
					++ready;
					for (int spin = 0; ready < threads; ++spin) { if (spin > 2000) { std::this_thread::yield(); } }
					results[t] = work(w[t], t);
				});
			}
			for (auto& t: v) { t.join(); }
			for (auto const& k: results) { send(fd, k); }
		}
	}, got);
	auto const v = received(got);
	if (rc != 0 || v.size() != static_cast<size_t>(threads * rounds)) {
		// what it said is on stderr; the driver reads that
		fprintf(stderr, "together: child ended with %d\n", rc);
		fflush(stderr);
		_exit(rc == 3 ? 3 : 74);
	}
	for (size_t t = 0; t < v.size(); ++t) {
		if (v[t] != alone[t % threads]) { fail("result", "thread " + std::to_string(t % threads) + " of " + std::to_string(threads) + ", alone and together: " + diff(alone[t % threads], v[t])); }
		count("threads-compared");
	}
	count("processes");
	for (auto const& k: w) { count(string("threads-") + format_name(k.s.format)); }
}

int main(int argc, char** argv)
{
	// nothing of the library before the fork but this program's own generators, which do not use it
	int const null = open("/dev/null", O_WRONLY);
	dup2(null, 1);
	return run(argc, argv, "C15", c15);
}
