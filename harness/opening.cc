// C18: opening by name, dumping, and the command line tool.
#include "scenarios.h"
#include <spawn.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

extern char** environ;

using namespace h;

namespace {

string tool;

// the format of a dump, written down from the property; times as given, or as they print themselves
string model_dump(std::map<string, string> const& metadata, vector<sub::Subtitle> const& subs, vector<string> const* times = nullptr)
{
	std::ostringstream o;
	o.imbue(std::locale::classic());
	for (auto const& i: metadata) { o << i.first << ": " << i.second << '\n'; }
	for (size_t n = 0; n < subs.size(); ++n) {
		o << "Subtitle " << n << " at ";
		if (times) { o << (n < times->size() ? (*times)[n] : string("nothing")); } else { o << subs[n].from << " -> " << subs[n].to; }
		o << '\n';
		for (auto const& l: subs[n].lines) {
			o << '\t';
			auto const& v = l.vertical_position;
			if (v.proportional) { o << *v.proportional << " of screen"; }
			else if (v.line && v.lines) { o << *v.line << " lines of " << *v.lines; }
			if (v.reference) {
				o << " from " << (*v.reference == sub::TOP_OF_SCREEN ? "top" : *v.reference == sub::VERTICAL_CENTRE_OF_SCREEN ? "centre" : *v.reference == sub::BOTTOM_OF_SCREEN ? "bottom" : "top of subtitle");
			}
			o << '\t';
			for (size_t b = 0; b <= l.blocks.size(); ++b) {
				bool const was_i = b && l.blocks[b - 1].italic, was_u = b && l.blocks[b - 1].underline;
				bool const is_i = b < l.blocks.size() && l.blocks[b].italic, is_u = b < l.blocks.size() && l.blocks[b].underline;
				if (was_i != is_i) { o << (is_i ? "<i>" : "</i>"); }
				if (was_u != is_u) { o << (is_u ? "<u>" : "</u>"); }
				if (b < l.blocks.size()) { o << l.blocks[b].text; }
			}
			o << '\n';
		}
	}
	return o.str();
}

struct Ran { int status; string out; };

// the tool's exit status (-1 for a signal) and what it printed
Ran run_tool(vector<string> args)
{
	string const out = scratch_name(".tool");
	posix_spawn_file_actions_t a;
	posix_spawn_file_actions_init(&a);
	posix_spawn_file_actions_addopen(&a, 0, "/dev/null", O_RDONLY, 0);
	posix_spawn_file_actions_addopen(&a, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	posix_spawn_file_actions_addopen(&a, 2, "/dev/null", O_WRONLY, 0);
	args.insert(args.begin(), tool);
	vector<char*> v;
	for (auto& i: args) { v.push_back(&i[0]); }
	v.push_back(0);
	pid_t p;
	if (posix_spawn(&p, tool.c_str(), &a, 0, v.data(), environ) != 0) { fprintf(stderr, "harness: cannot run %s\n", tool.c_str()); _exit(3); }
	posix_spawn_file_actions_destroy(&a);
	rlimit const cpu = { 30, 30 };
	prlimit(p, RLIMIT_CPU, &cpu, 0);
	int s;
	waitpid(p, &s, 0);
	Ran x = { WIFEXITED(s) ? WEXITSTATUS(s) : -1, read_file(out) };
	unlink(out.c_str());
	return x;
}

string stem(Rng& r)
{
	return r.pick(vector<string>{ "a", "film", "with space", "a.b", "x.srt", "y.stl", "\xc3\xa9t\xc3\xa9", "UPPER", "trailing.", "-dash", "%s%n", "srt", "a.ass.vtt", "1" });
}

string in_case(Rng& r, string s)
{
	switch (r.below(4)) {
	case 0: for (auto& c: s) { c = toupper(c); } break;
	case 1: for (auto& c: s) { if (r.coin()) { c = toupper(c); } } break;
	default: break;
	}
	return s;
}

string everything(std::shared_ptr<sub::Reader> reader)
{
	return desc(reader->subtitles()) + "----\n" + desc(reader->metadata());
}

bool looks_binary(string const& s) { return s.size() >= 11 && s.compare(3, 3, "STL") == 0 && s.compare(0, 2, "//") != 0; }

void by_name(Rng& r, uint64_t)
{
	ScenarioOpts o;
	o.damage_percent = 20;
	auto s = gen_scenario(r, o);
	if (r.chance(1, 12)) {
		// hardly anything
		s.format = r.coin() ? STL_TEXT : SRT;
		s.damaged = true;
		s.bytes = r.pick(vector<string>{ "", "\n", "1", "//", "//x\n", "850", "850ST", "850STL", "850STL25", "850STL25.0", "$Bold=True", "\r\n", "STL", "ab", "a,b,c" });
		if (r.coin()) { s.bytes.resize(r.below(11), ' '); }
		// what was opened before must not matter
		string const before = st().scratch + "/before.stl";
		write_file(before, gen_stl_bin(r, StlBinOpts()).bytes);
		QuietCout w;
		outcome([&]() { sub::reader_factory(before); return string(); });
		unlink(before.c_str());
		count("after-another");
	}
	if (s.format == STL_TEXT && !s.damaged && r.chance(1, 4)) {
		s.bytes = r.pick(vector<string>{ "// STL file\n", "// STL25.01\n", "//xSTL25.01 some more text\n" }) + s.bytes;
	}
	string ext;
	int expect = -1;        // the format it is to be read as
	static vector<string> const unknown = { ".txt", ".ssa", ".ass", ".vtt", "", ".", ".srtx", ".xsrt", ".sr", ".st", ".stlx", ".srt~", ".stl.bak", ".mp4", ".xml", ".s\xc3\xa9", ".sub", ".text", ".sbv", ".smi", ".dat", ".ttml", ".rts", ".lts", ".srt1", ".str", ".1srt" };
	switch (r.below(5)) {
	case 0: ext = in_case(r, ".srt"); expect = SRT; break;
	case 1: ext = in_case(r, ".stl"); expect = looks_binary(s.bytes) ? STL_BINARY : STL_TEXT; break;
	case 2:
		ext = in_case(r, r.pick(unknown));
		if (r.chance(1, 3)) {
			// any other
			ext = ".";
			for (int n = r.range(1, 5); n; --n) { ext += char((r.coin() ? 'a' : 'A') + r.below(26)); }
			string lower = ext;
			for (auto& c: lower) { c = tolower(c); }
			if (lower == ".srt" || lower == ".stl") { ext += "x"; }
		}
		break;
	default:
		// as it should be called
		ext = s.format == SRT ? in_case(r, ".srt") : s.format == STL_TEXT || s.format == STL_BINARY ? in_case(r, ".stl") : in_case(r, s.format == SSA ? ".ass" : ".vtt");
		expect = s.format == SRT ? int(SRT) : ext == ".ass" || ext == ".vtt" || (s.format == SSA || s.format == VTT) ? -1 : looks_binary(s.bytes) ? int(STL_BINARY) : int(STL_TEXT);
	}
	string st_ = stem(r);
	// with a stem that has an extension of its own, no extension is no good
	if (ext.empty() && (st_ == "x.srt" || st_ == "y.stl")) { st_ = "none"; }
	string dir = st().scratch;
	bool const in_dir = r.chance(1, 4);
	if (in_dir) { dir += r.coin() ? "/dir.srt" : "/d.stl"; mkdir(dir.c_str(), 0700); }
	string const path = dir + "/" + st_ + ext;
	struct Remove { string p, d; ~Remove() { unlink(p.c_str()); if (!d.empty()) { rmdir(d.c_str()); } } } remove{ path, in_dir ? dir : "" };
	write_file(path, s.bytes);
	input(path.substr(st().scratch.size()) + "\n" + s.bytes);
	judged(path + s.bytes);
	string const name = "file " + path.substr(st().scratch.size()) + " of " + format_name(s.format) + (s.damaged ? ", damaged" : "");
	string const want = expect < 0 ? "ok\nno reader" : outcome([&]() { return everything(read_as(expect, s.bytes)); });
	Census const before;
	std::shared_ptr<sub::Reader> reader;
	// warnings go the way of the tool's own output
	string warnings;
	string const got = outcome([&]() { { QuietCout w; reader = sub::reader_factory(path); warnings = w.text(); } return reader ? everything(reader) : string("no reader"); });
	string const after = before.changes();
	if (got != want) { fail("by name", name + ": " + diff(want, got)); return; }
	if (!after.empty()) { fail("open files", name + ": " + after + got.substr(0, 60)); return; }
	count(expect < 0 ? "unknown-extensions" : got.compare(0, 3, "ok\n") == 0 ? string(format_name(expect)) + "-opened" : string("malformed-refused"));
	bool const ok = got.compare(0, 3, "ok\n") == 0;
	// the tool
	string dumped;
	bool dumps = false;
	if (reader) {
		string const e = outcome([&]() {
			std::ostringstream d; d.imbue(std::locale::classic());
			sub::dump(reader, d);
			dumped = d.str();
			dumps = true;
			return string();
		});
		if (dumps) {
			string const model = model_dump(reader->metadata(), sub::collect<vector<sub::Subtitle>>(reader->subtitles()));
			if (dumped != model) { fail("dump", name + ": " + diff(model, dumped)); return; }
			count("dumps-compared");
		}
	}
	if (!tool.empty() && r.chance(1, 5)) {
		auto const x = run_tool({ path });
		bool const fine = ok && reader && dumps;
		if (fine && x.status != 0) { fail("tool", name + ": the tool gave status " + std::to_string(x.status)); return; }
		if (!fine && x.status == 0) { fail("tool", name + ": the tool gave status 0 for what cannot be read"); return; }
		if (x.status == 77 || x.status == 76) { fail("tool sanitizer", name + ": a sanitizer's report from the tool"); return; }
		if (fine && x.out != warnings + dumped) { fail("tool", name + ": the tool and the library differ " + diff(warnings + dumped, x.out)); return; }
		count(fine ? "tool-dumps" : "tool-refusals");
	}
}

void dumps(Rng& r, uint64_t)
{
	ScenarioOpts o;
	o.damage_percent = 10;
	o.size = r.chance(1, 50) ? 100 : 8;
	auto s = gen_scenario(r, o);
	string const name = format_name(s.format);
	input(s.bytes);
	judged(name + s.bytes);
	std::shared_ptr<sub::Reader> reader;
	vector<sub::Subtitle> subs;
	string const e = outcome([&]() { reader = read_as(s.format, s.bytes); subs = sub::collect<vector<sub::Subtitle>>(reader->subtitles()); return string(); });
	if (e != "ok\n") { count("unreadable"); return; }
	std::ostringstream d;
	d.imbue(std::locale::classic());
	sub::dump(reader, d);
	string const model = model_dump(reader->metadata(), subs);
	if (d.str() != model) { fail("dump", name + ": " + diff(model, d.str())); return; }
	for (auto const& i: subs) { for (auto const& l: i.lines) { for (auto const& b: l.blocks) { if (b.italic || b.underline) { count("styled-lines"); break; } } count("lines"); } }
	count("dumps-compared");
	count(name + "-dumped");
	if (model.size() < 600) { sample(show(model)); }
}

// a reader of subtitles made up on the spot
class Made : public sub::Reader
{
public:
	vector<sub::RawSubtitle>& subs() { return _subs; }
	std::map<string, string> data;
	std::map<string, string> metadata() const override { return data; }
};

// a time, and how it reads
std::pair<sub::Time, string> gen_time(Rng& r, int number, boost::optional<sub::Rational> rate)
{
	// in order with the number
	int const seconds = number;
	int const most = rate ? (rate->numerator + rate->denominator - 1) / rate->denominator : 30;
	int const frames = r.chance(1, 3) ? 0 : r.below(most);
	int const h_ = seconds / 3600, m = seconds / 60 % 60, s = seconds % 60;
	char b[128];
	snprintf(b, sizeof b, "%02d:%02d:%02d:%d", h_, m, s, frames);
	string printed = b;
	if (rate) { printed += " @ " + std::to_string(rate->numerator) + "/" + std::to_string(rate->denominator); }
	return { sub::Time::from_hmsf(h_, m, s, frames, rate), printed };
}

void made_up(Rng& r, uint64_t)
{
	auto made = std::make_shared<Made>();
	static vector<string> const keys = { "a", "B", "Title", "Language code", "", "z z", "\xc3\xa9" };
	for (int n = r.below(4); n; --n) { made->data[r.pick(keys)] = r.pick(vector<string>{ "", "x", "some words", "1", "\xe2\x82\xac" }); }
	boost::optional<sub::Rational> rate;
	switch (r.below(6)) {
	case 0: break;
	case 1: rate = sub::Rational(24000, 1001); break;
	case 2: rate = sub::Rational(1000, 1); break;
	case 3: rate = sub::Rational(30, 1); break;
	case 4: rate = sub::Rational(r.range(20, 120), 1); break;
	default: rate = sub::Rational(25, 1); break;
	}
	vector<string> times;
	int at = r.pick(vector<int>{ 0, 0, 50, 3000, 3590, 35990, 86390, 359990, 400000 });
	for (int n = r.below(9); n; --n) {
		at += r.range(1, r.pick(vector<int>{ 3, 70, 4000 }));
		auto const from = gen_time(r, at, rate);
		at += r.range(1, r.pick(vector<int>{ 3, 70, 4000 }));
		auto const to = gen_time(r, at, rate);
		times.push_back(from.second + " -> " + to.second);
		sub::VerticalPosition v;
		for (int l = 0, lines = r.range(1, 4); l < lines; ++l) {
			sub::RawSubtitle raw;
			raw.from = from.first;
			raw.to = to.first;
			raw.vertical_position.reference = v.reference;
			if (l == 0) {
				raw.vertical_position.reference = v.reference = r.pick(vector<sub::VerticalReference>{ sub::TOP_OF_SCREEN, sub::VERTICAL_CENTRE_OF_SCREEN, sub::BOTTOM_OF_SCREEN, sub::TOP_OF_SUBTITLE });
				v.lines = r.chance(1, 2) ? boost::optional<int>(r.range(12, 99)) : boost::none;
			}
			if (v.lines) { raw.vertical_position.line = l + 1; raw.vertical_position.lines = v.lines; }
			else { raw.vertical_position.proportional = l / 8.0f; }
			if (*v.reference == sub::BOTTOM_OF_SCREEN) {
				// further from the bottom comes first
				if (v.lines) { raw.vertical_position.line = 10 - l; } else { raw.vertical_position.proportional = 0.75f - l / 8.0f; }
			}
			for (int b = r.range(1, 4); b; --b) {
				raw.text = r.pick(vector<string>{ "", "a", "<", "some text", " ", "<i>", "\xc3\xa9t\xc3\xa9", "</u>", "x\ty" });
				raw.italic = r.chance(1, 3);
				raw.underline = r.chance(1, 3);
				raw.bold = r.chance(1, 5);
				made->subs().push_back(raw);
			}
		}
	}
	vector<sub::Subtitle> const subs = sub::collect<vector<sub::Subtitle>>(made->subtitles());
	string const model = model_dump(made->metadata(), subs, &times);
	input(model);
	judged(model);
	if (subs.size() != times.size()) { fail("made up", std::to_string(times.size()) + " subtitles were collected into " + std::to_string(subs.size())); return; }
	std::ostringstream d;
	d.imbue(std::locale::classic());
	sub::dump(made, d);
	if (d.str() != model) { fail("dump", "of made up subtitles: " + diff(model, d.str())); return; }
	count("made-up-dumps");
	count("dumps-compared");
}

// what is not a readable file
void unreadable(Rng& r, uint64_t)
{
	string const ext = in_case(r, r.coin() ? ".srt" : ".stl");
	string path = st().scratch + "/" + stem(r) + ext;
	string what;
	int made = 0;
	switch (r.below(4)) {
	case 0: what = "missing"; break;
	case 1: what = "directory"; mkdir(path.c_str(), 0700); made = 1; break;
	case 2: what = "in a missing directory"; path = st().scratch + "/nowhere/x" + ext; break;
	default: what = "dangling link"; if (symlink("nothing-here", path.c_str()) == 0) { made = 2; } break;
	}
	input(what + " " + ext);
	judged(what + path);
	Census const before;
	string const got = outcome([&]() { auto x = sub::reader_factory(path); return x ? "a reader of\n" + desc(x->subtitles()) : string("no reader"); });
	string const after = before.changes();
	Ran t = { 1, "" };
	if (!tool.empty() && r.chance(1, 4)) { t = run_tool({ path }); count("tool-refusals"); }
	if (made == 1) { rmdir(path.c_str()); }
	if (made == 2) { unlink(path.c_str()); }
	if (got.compare(0, 3, "ok\n") == 0) { fail("unreadable", what + " " + path.substr(st().scratch.size()) + " gave no error but " + got.substr(3)); return; }
	if (!after.empty()) { fail("open files", what + " " + path.substr(st().scratch.size()) + ": " + after); return; }
	if (t.status == 0) { fail("tool", what + ": the tool gave status 0"); return; }
	count("unreadable-refused");
}

void usage(Rng& r, uint64_t i)
{
	if (tool.empty()) { return; }
	judged(i);
	auto none = run_tool({});
	if (none.status <= 0) { fail("tool", "without a file it gave status " + std::to_string(none.status)); return; }
	auto two = run_tool({ "a.srt", "b.srt" });
	if (two.status <= 0) { fail("tool", "with two files it gave status " + std::to_string(two.status)); return; }
	auto help = run_tool({ r.coin() ? "-h" : "--help" });
	if (help.status != 0) { fail("tool", "asked for help it gave status " + std::to_string(help.status)); return; }
	count("tool-usage");
}

void c18(Rng& r, uint64_t i)
{
	QuietCout q;
	uint64_t const k = mix(i) % 40;
	if (k == 0) { usage(r, i); }
	else if (k < 6) { unreadable(r, i); }
	else if (k < 9) { made_up(r, i); }
	else if (k < 20) { dumps(r, i); }
	else { by_name(r, i); }
}

}

int main(int argc, char** argv)
{
	if (char const* t = getenv("VERIF_TOOL")) { tool = t; }
	return run(argc, argv, "C18", c18);
}
