// C01: memory that runs out at any point gives an exception, and no more.
#include "soup.h"
#include <new>

using namespace h;

namespace memory {
bool armed = false;
uint64_t asked = 0, fail_at = 0, failed = 0;
static void* get(size_t n)
{
	if (armed && asked++ == fail_at) { ++failed; return nullptr; }
	return malloc(n ? n : 1);
}
}

void* operator new(size_t n) { void* p = memory::get(n); if (!p) { throw std::bad_alloc(); } return p; }
void* operator new[](size_t n) { void* p = memory::get(n); if (!p) { throw std::bad_alloc(); } return p; }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return memory::get(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return memory::get(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { free(p); }

// what the library does, with the harness's own work left out
struct Job
{
	std::shared_ptr<sub::Reader> reader;
	vector<sub::Subtitle> subs;
	int stage = 0;
	string ended;
};

static Job run_job(Scenario const& s, string const& path, uint64_t fail_at)
{
	Job j;
	std::unique_ptr<MemFile> file;
	std::unique_ptr<std::istringstream> stream;
	if (s.format == STL_TEXT || s.format == STL_BINARY) { stream.reset(new std::istringstream(s.bytes)); } else { file.reset(new MemFile(s.bytes)); }
	memory::asked = memory::failed = 0;
	memory::fail_at = fail_at;
	memory::armed = true;
	try {
		if (stream) { j.reader = read_stream_format(s.format, *stream); } else { j.reader = read_file_format(s.format, file->get()); }
		++j.stage;
		j.subs = sub::collect<vector<sub::Subtitle>>(j.reader->subtitles());
		++j.stage;
		write(j.subs, s.args, path);
		++j.stage;
		memory::armed = false;
	} catch (std::bad_alloc&) {
		memory::armed = false;
		j.ended = "out of memory";
	} catch (std::exception& e) {
		memory::armed = false;
		j.ended = desc_exception(e);
	}
	return j;
}

static void nomem(Rng& r, uint64_t)
{
	QuietCout q;
	Scenario s;
	if (r.coin()) {
		ScenarioOpts o;
		o.damage_percent = 10;
		o.size = 4;
		o.huge = false;
		s = gen_scenario(r, o);
	} else {
		s.format = r.below(FORMATS);
		s.args = gen_args(r);
		s.bytes = soup(r, s.format);
	}
	if (s.bytes.size() > 6000) { count("too-big"); return; }
	string const name = format_name(s.format);
	input(name + "\n" + s.bytes);
	judged(name + s.bytes);
	string const path = scratch_name(".stl");
	// the first time is not like the rest: tables are made that stay
	run_job(s, path, ~0ULL);
	Census const files;
	auto const whole = run_job(s, path, ~0ULL);
	uint64_t const n = memory::asked;
	string const bytes = whole.stage == 3 ? read_file(path) : "";
	string const raw = whole.reader ? desc(whole.reader->subtitles()) : "", subs = desc(whole.subs);
	vector<uint64_t> at;
	if (n <= 60) { for (uint64_t i = 0; i < n; ++i) { at.push_back(i); } } else { for (int i = 0; i < 60; ++i) { at.push_back(r.below(n)); } }
	for (auto k: at) {
		unlink(path.c_str());
		auto const j = run_job(s, path, k);
		if (!memory::failed) { count("no-memory-not-met"); continue; }
		string const where = name + ": with no memory for allocation " + std::to_string(k) + " of " + std::to_string(n) + ": ";
		if (j.stage >= 1 && desc(j.reader->subtitles()) != raw) { fail("no memory " + name + " read", where + diff(raw, desc(j.reader->subtitles()))); return; }
		if (j.stage >= 2 && desc(j.subs) != subs) { fail("no memory collected", where + diff(subs, desc(j.subs))); return; }
		if (j.stage == 3 && read_file(path) != bytes) { fail("no memory written", where + diff(bytes, read_file(path))); return; }
		string const open = files.changes();
		if (!open.empty()) { fail("no memory open files", where + open); return; }
		count(j.ended.empty() ? "no-memory-survived" : j.ended == "out of memory" ? "no-memory-reported" : "no-memory-other-exception");
		static char const* stages[] = { "reading", "collecting", "writing", "done" };
		if (!j.ended.empty()) { count(string("no-memory-") + stages[j.stage]); }
	}
	unlink(path.c_str());
}

int main(int argc, char** argv) { return run(argc, argv, "nomem", nomem); }
