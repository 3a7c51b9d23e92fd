// C24: the work and memory needed grow in proportion to the input.
#include "scenarios.h"
#include "costs.h"

using namespace h;

namespace {

// what is being measured, for a case that has to be cut short
string measuring;

// Blocks of code for each byte of input; honest code takes some hundreds.
double const TOO_MUCH = 30000;

void too_much()
{
	fail(measuring + " work", measuring + ": cut short after executing " + std::to_string(uint64_t(TOO_MUCH)) + " blocks of code for each byte of its input");
	// no way on from here but to the next case
	fflush(st().out);
	_exit(78);
}

struct Work { double blocks = 0, bytes = 0, allocated = 0, peak = 0; };

template <class F> Work measure(string const& what, size_t size, F f)
{
	measuring = what + ", " + std::to_string(size) + " bytes";
	auto const a = costs::now;
	costs::now.peak = costs::now.live;
	costs::over = too_much;
	costs::limit = a.blocks + uint64_t(TOO_MUCH * (size + 1000));
	f();
	costs::limit = ~uint64_t(0);
	auto const b = costs::now;
	Work w;
	w.blocks = b.blocks - a.blocks;
	auto& worst = st().counts["worst blocks of code for each byte"];
	worst = std::max<uint64_t>(worst, w.blocks / (size + 1000));
	w.bytes = b.bytes - a.bytes;
	w.allocated = b.allocated - a.allocated;
	w.peak = b.peak - a.live;
	return w;
}

string t_srt(int64_t ms, char sep = ',') { char b[64]; snprintf(b, sizeof(b), "%02d:%02d:%02d%c%03d", int(ms / 3600000), int(ms / 60000 % 60), int(ms / 1000 % 60), sep, int(ms % 1000)); return b; }
string t_ssa(int64_t ms) { char b[64]; snprintf(b, sizeof(b), "%d:%02d:%02d.%02d", int(ms / 3600000), int(ms / 60000 % 60), int(ms / 1000 % 60), int(ms % 1000 / 10)); return b; }
string t_stl(int64_t ms) { char b[64]; snprintf(b, sizeof(b), "%02d:%02d:%02d:%02d", int(ms / 3600000), int(ms / 60000 % 60), int(ms / 1000 % 60), int(ms % 1000 / 40)); return b; }

string words(Rng& r, size_t n)
{
	string s;
	while (s.size() < n) { s += char('a' + r.below(26)); if (r.chance(1, 6) && s.size() + 1 < n) { s += ' '; } }
	return s;
}

string times(string const& s, size_t n) { string o; o.reserve(s.size() * n); for (size_t i = 0; i < n; ++i) { o += s; } return o; }

struct Shape
{
	char const* name;
	int format;
	size_t base;                                     // how many of what it has many of, at the smallest
	std::function<string (Rng&, size_t)> make;
};

string cue(size_t i, string const& text) { return std::to_string(i + 1) + "\n" + t_srt(i * 50 + 1) + " --> " + t_srt(i * 50 + 40) + "\n" + text + "\n\n"; }
string vcue(size_t i, string const& text) { return t_srt(i * 50 + 1, '.') + " --> " + t_srt(i * 50 + 40, '.') + "\n" + text + "\n\n"; }
string const ssa_head = "[Script Info]\nPlayResX: 640\nPlayResY: 480\n\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, Bold, Italic, Underline, Alignment, MarginL, MarginR, MarginV\n";
string const ssa_style = "Style: Default,Arial,30,&H00FFFFFF,0,0,0,2,10,10,10\n";
string const ssa_events = "\n[Events]\nFormat: Layer, Start, End, Style, MarginL, MarginR, MarginV, Effect, Text\n";
string event(size_t i, string const& text, string const& style = "Default") { return "Dialogue: 0," + t_ssa(i * 50) + "," + t_ssa(i * 50 + 40) + "," + style + ",0,0,0,," + text + "\n"; }
string ssa(string const& events) { return ssa_head + ssa_style + ssa_events + events; }

string stl(size_t blocks, std::function<void (size_t, Tti&)> fill)
{
	Header h;
	char b[16];
	snprintf(b, sizeof(b), "%05zu", blocks);
	h.tnb = b;
	string o = h.bytes();
	for (size_t i = 0; i < blocks; ++i) {
		Tti t;
		t.sn = i & 0xffff;
		auto set = [](unsigned char* p, size_t f) { p[0] = f / 25 / 3600; p[1] = f / 25 / 60 % 60; p[2] = f / 25 % 60; p[3] = f % 25; };
		set(t.tci, i * 10);
		set(t.tco, i * 10 + 9);
		t.vp = 20;
		fill(i, t);
		o += t.bytes();
	}
	return o;
}

vector<Shape> const& shapes()
{
	auto lines = [](Rng& r, size_t n, string const& sep, size_t w) { string s; for (size_t i = 0; i < n; ++i) { if (i) { s += sep; } s += words(r, 1 + r.below(w)); } return s; };
	static vector<Shape> const v = {
		{ "srt many cues", SRT, 1500, [](Rng& r, size_t n) { string s; for (size_t i = 0; i < n; ++i) { s += cue(i, words(r, 30)); } return s; } },
		{ "srt cues at one time", SRT, 1500, [](Rng& r, size_t n) { string s; for (size_t i = 0; i < n; ++i) { s += cue(0, words(r, 8)); } return s; } },
		{ "srt cues from last to first", SRT, 1500, [](Rng& r, size_t n) { string s; for (size_t i = 0; i < n; ++i) { s += cue(n - i, words(r, 8)); } return s; } },
		{ "srt long line", SRT, 60000, [](Rng& r, size_t n) { return cue(0, words(r, n)); } },
		{ "srt long line of other characters", SRT, 20000, [](Rng&, size_t n) { return cue(0, times("\xe3\x81\x82\xc3\xa9", n)); } },
		{ "srt many lines in a cue", SRT, 3000, [lines](Rng& r, size_t n) { return cue(0, lines(r, n, "\n", 20)); } },
		{ "srt many line separators", SRT, 3000, [lines](Rng& r, size_t n) { return cue(0, lines(r, n, "\xe2\x80\xa8", 20)); } },
		{ "srt many tags", SRT, 2000, [](Rng&, size_t n) { return cue(0, times("<i>a</i><B>b</B>{u}c{/u}", n)); } },
		{ "srt many empty tags", SRT, 3000, [](Rng&, size_t n) { return cue(0, times("<i></i>{b}{/b}", n) + "x"); } },
		{ "srt many colours", SRT, 400, [](Rng&, size_t n) { return cue(0, times("<font color=\"#ff0080\">a</font>", n)); } },
		{ "srt many colours left open", SRT, 400, [](Rng&, size_t n) { return cue(0, times("<font color=\"#ff0080\">a", n)); } },
		{ "srt many rgba colours", SRT, 300, [](Rng&, size_t n) { return cue(0, times("<font color=\"rgba(1,2,3,4)\">a</font>", n)); } },
		{ "srt many overrides", SRT, 1000, [](Rng&, size_t n) { string s; for (size_t i = 0; i < n; ++i) { s += cue(i, "{\\an8}x"); } return s; } },
		{ "srt what is nearly a tag", SRT, 30000, [](Rng& r, size_t n) { string s; while (s.size() < n) { s += r.pick(vector<string>{ "<", "{", "</", "<fon", "< ", "{i", "<<" }); } return cue(0, s + " x"); } },
		{ "srt right-to-left marks", SRT, 10000, [](Rng&, size_t n) { return cue(0, times("\xe2\x80\xab""a", n)); } },
		{ "srt blank lines", SRT, 30000, [](Rng&, size_t n) { return times("\n", n) + cue(0, "x"); } },
		{ "srt long counter", SRT, 60000, [](Rng&, size_t n) { return times("7", n) + cue(0, "x"); } },
		{ "srt cues of several lines and tags", SRT, 500, [lines](Rng& r, size_t n) { string s; for (size_t i = 0; i < n; ++i) { s += cue(i, "<i>" + lines(r, 1 + r.below(4), "</i>\n<b>x</b> <i>", 30) + "</i>"); } return s; } },
		{ "vtt many cues", VTT, 1500, [](Rng& r, size_t n) { string s = "WEBVTT\n\n"; for (size_t i = 0; i < n; ++i) { s += vcue(i, words(r, 30)); } return s; } },
		{ "vtt long line", VTT, 60000, [](Rng& r, size_t n) { return "WEBVTT\n\n" + vcue(0, words(r, n)); } },
		{ "vtt many lines in a cue", VTT, 3000, [lines](Rng& r, size_t n) { return "WEBVTT\n\n" + vcue(0, lines(r, n, "\n", 20)); } },
		{ "vtt many line separators", VTT, 3000, [lines](Rng& r, size_t n) { return "WEBVTT\n\n" + vcue(0, lines(r, n, "\xe2\x80\xa8", 20)); } },
		{ "vtt notes", VTT, 3000, [](Rng& r, size_t n) { string s = "WEBVTT\n\n"; for (size_t i = 0; i < n; ++i) { s += "NOTE " + words(r, 20) + "\n\n"; } return s + vcue(0, "x"); } },
		{ "vtt long note", VTT, 3000, [lines](Rng& r, size_t n) { return "WEBVTT\n\nNOTE\n" + lines(r, n, "\n", 20) + "\n\n" + vcue(0, "x"); } },
		{ "vtt other blocks", VTT, 3000, [lines](Rng& r, size_t n) { return "WEBVTT\n\nSTYLE\n" + lines(r, n, "\n", 20) + "\n\n" + vcue(0, "x"); } },
		{ "ssa many events", SSA, 500, [](Rng& r, size_t n) { string s; for (size_t i = 0; i < n; ++i) { s += event(i, words(r, 30)); } return ssa(s); } },
		{ "ssa many styles and events", SSA, 400, [](Rng& r, size_t n) {
			string s = ssa_head, e;
			for (size_t i = 0; i < n; ++i) {
				s += "Style: s" + std::to_string(i) + ",Arial,30,&H00FFFFFF,0,0,0,2,10,10,10\n";
				e += event(i, words(r, 10), "s" + std::to_string(i));
			}
			return s + ssa_events + e;
		} },
		{ "ssa long text", SSA, 60000, [](Rng& r, size_t n) { return ssa(event(0, words(r, n))); } },
		{ "ssa many line breaks", SSA, 3000, [lines](Rng& r, size_t n) { return ssa(event(0, lines(r, n, "\\N", 20))); } },
		{ "ssa many overrides", SSA, 1000, [](Rng&, size_t n) { return ssa(event(0, times("{\\i1}a{\\i0}b", n))); } },
		{ "ssa many tags in an override", SSA, 2000, [](Rng&, size_t n) { return ssa(event(0, "{" + times("\\i1\\b1\\fs20", n) + "}x")); } },
		{ "ssa many empty overrides", SSA, 5000, [](Rng&, size_t n) { return ssa(event(0, times("{}", n) + "x")); } },
		{ "ssa many colours", SSA, 500, [](Rng&, size_t n) { return ssa(event(0, times("{\\c&H0000FF&}a", n))); } },
		{ "ssa many positions", SSA, 500, [](Rng&, size_t n) { string s; for (size_t i = 0; i < n; ++i) { s += event(i, "{\\an7\\pos(10,20)}x"); } return ssa(s); } },
		{ "ssa many commas", SSA, 10000, [](Rng&, size_t n) { return ssa(event(0, times("a,", n) + "b")); } },
		{ "ssa comments", SSA, 5000, [](Rng&, size_t n) { return times("; nothing\n", n) + ssa(event(0, "x")); } },
		{ "ssa long unknown tag", SSA, 60000, [](Rng& r, size_t n) { return ssa(event(0, "{\\" + words(r, n) + "}x")); } },
		{ "ssa information", SSA, 3000, [](Rng& r, size_t n) { string s = "[Script Info]\n"; for (size_t i = 0; i < n; ++i) { s += "Key" + std::to_string(i) + ": " + words(r, 10) + "\n"; } return s + ssa(event(0, "x")); } },
		{ "ssa fonts", SSA, 3000, [](Rng& r, size_t n) { string s; for (size_t i = 0; i < n; ++i) { s += words(r, 40) + "\n"; } return ssa(event(0, "x")) + "\n[Fonts]\n" + s; } },
		{ "stl-text many subtitles", STL_TEXT, 1500, [](Rng& r, size_t n) { string s; for (size_t i = 0; i < n; ++i) { s += t_stl(i * 80) + " , " + t_stl(i * 80 + 40) + " ," + words(r, 30) + "\n"; } return s; } },
		{ "stl-text long line", STL_TEXT, 60000, [](Rng& r, size_t n) { return t_stl(0) + " , " + t_stl(40) + " ," + words(r, n) + "\n"; } },
		{ "stl-text many lines", STL_TEXT, 3000, [lines](Rng& r, size_t n) { return t_stl(0) + " , " + t_stl(40) + " ," + lines(r, n, "|", 20) + "\n"; } },
		{ "stl-text many toggles", STL_TEXT, 3000, [](Rng&, size_t n) { return t_stl(0) + " , " + t_stl(40) + " ," + times("^Ia^I^Bb^B", n) + "\n"; } },
		{ "stl-text settings", STL_TEXT, 3000, [](Rng&, size_t n) { return times("$Bold = True\n$FontName = Arial\n$FontSize = 20\n", n) + t_stl(0) + " , " + t_stl(40) + " ,x\n"; } },
		{ "stl-text comments", STL_TEXT, 6000, [](Rng&, size_t n) { return times("// nothing\n\n", n); } },
		{ "stl-binary many blocks", STL_BINARY, 500, [](Rng& r, size_t n) { return stl(n, [&](size_t, Tti& t) { t.tf = words(r, 60); }); } },
		{ "stl-binary full blocks", STL_BINARY, 500, [](Rng& r, size_t n) { return stl(n, [&](size_t, Tti& t) { t.tf = words(r, 112); }); } },
		{ "stl-binary many rows", STL_BINARY, 300, [](Rng&, size_t n) { return stl(n, [&](size_t, Tti& t) { t.vp = 0; t.tf = times("ab\x8a", 37); }); } },
		{ "stl-binary control codes", STL_BINARY, 300, [](Rng&, size_t n) { return stl(n, [&](size_t, Tti& t) { t.tf = times(string("\x01""a\x80""b", 4), 28); }); } },
		{ "stl-binary extended subtitles", STL_BINARY, 500, [](Rng& r, size_t n) {
			return stl(n, [&](size_t i, Tti& t) {
				// as long as a subtitle can be
				size_t const g = i / 200;
				t.sn = g & 0xffff;
				t.ebn = i % 200 == 199 || i == n - 1 ? 0xff : i % 200;
				t.tci[0] = t.tco[0] = 0; t.tci[1] = t.tco[1] = g / 60; t.tci[2] = g % 60; t.tco[2] = t.tci[2]; t.tci[3] = 0; t.tco[3] = 20;
				t.tf = words(r, 112);
			});
		} },
		{ "stl-binary comments", STL_BINARY, 1000, [](Rng& r, size_t n) { return stl(n, [&](size_t, Tti& t) { t.cf = 1; t.tf = words(r, 60); }); } },
		{ "stl-binary accents", STL_BINARY, 300, [](Rng&, size_t n) { return stl(n, [&](size_t, Tti& t) { t.tf = times("\xc2""e\xc8""u", 28); }); } },
	};
	return v;
}

size_t STEPS = 3;    // 1, 4 and 16 times the size

// of the last two sizes tried
void judge(string const& what, vector<Work> const& w, size_t const i, vector<size_t> const& sizes)
{
	struct { char const* n; double Work::*m; double least; } const kinds[] = {
		{ "work", &Work::blocks, 20000 }, { "bytes moved", &Work::bytes, 20000 }, { "bytes allocated", &Work::allocated, 20000 }, { "memory", &Work::peak, 20000 }
	};
	for (auto const& k: kinds) {
		double const a = w[i - 1].*(k.m) + k.least, b = w[i].*(k.m) + k.least;
		double const size = double(sizes[i]) / sizes[i - 1];
		double const ratio = b / a / size;
		count("ratios");
		if (ratio > 1.3 && getenv("VERIF_SHOW")) { fprintf(stderr, "%s %s %g %g %g\n", what.c_str(), k.n, a, b, ratio); }
		// worst seen, in hundredths
		auto& worst = st().counts[string("worst-ratio-percent ") + k.n];
		worst = std::max<uint64_t>(worst, ratio * 100);
		// in proportion gives 1; with the square gives the growth in size again, here 4
		if (ratio > (k.m == &Work::peak ? 2.2 : 1.5)) {
			fail(what + " " + k.n, what + ": from " + std::to_string(sizes[i - 1]) + " to " + std::to_string(sizes[i]) + " bytes of input, " + k.n + " grew from " + std::to_string(uint64_t(a)) + " to "
			     + std::to_string(uint64_t(b)) + ", " + num(ratio) + " times as much as the input");
			return;
		}
	}
}

void c24(Rng& r, uint64_t i)
{
	// warnings go nowhere, and cost nothing
	struct Nowhere { std::streambuf* old = std::cout.rdbuf(nullptr); ~Nowhere() { std::cout.rdbuf(old); std::cout.clear(); } } nowhere;
	auto const& all = shapes();
	auto const& shape = all[i % all.size()];
	uint64_t const seed = r.u64();
	vector<Work> read(STEPS), collected(STEPS), dumped(STEPS), written(STEPS);
	vector<size_t> sizes, files;
	bool write_ok = shape.format != STL_TEXT;
	double const scale = i < all.size() ? 1 : 0.6 + r.unit();
	string const name = shape.name;
	input(shape.name);
	judged(string(shape.name) + std::to_string(seed));
	for (size_t k = 0; k < STEPS; ++k) {
		Rng g(seed);
		size_t n = size_t(shape.base * scale) << (2 * k);
		if (shape.format == STL_BINARY) { n = std::min<size_t>(n, 99999); }
		string const bytes = shape.make(g, n);
		sizes.push_back(bytes.size());
		std::shared_ptr<sub::Reader> reader;
		std::unique_ptr<MemFile> file;
		std::unique_ptr<std::istringstream> stream;
		bool const by_file = (seed & 1) && shape.format != STL_TEXT && shape.format != STL_BINARY;
		if (by_file) { file.reset(new MemFile(bytes)); }
		if (shape.format == STL_TEXT || shape.format == STL_BINARY) { stream.reset(new std::istringstream(bytes)); }
		read[k] = measure(name + ": reading", bytes.size(), [&]() {
			if (by_file) { reader = read_file_format(shape.format, file->get()); }
			else if (stream) { reader = read_stream_format(shape.format, *stream); }
			else { reader = read_as(shape.format, bytes); }
		});
		vector<sub::Subtitle> subs;
		vector<sub::RawSubtitle> raw = reader->subtitles();
		if (raw.empty() && string(shape.name).find("comments") == string::npos) { fail("harness", string(shape.name) + " gave nothing"); return; }
		collected[k] = measure(name + ": collecting", bytes.size(), [&]() { subs = sub::collect<vector<sub::Subtitle>>(raw); });
		dumped[k] = measure(name + ": dumping", bytes.size(), [&]() { std::ostringstream o; sub::dump(reader, o); });
		count("subtitles", subs.size());
		if (write_ok) {
			string const path = scratch_name(".stl");
			try {
				written[k] = measure(name + ": writing", bytes.size(), [&]() { WriteArgs a; write(subs, a, path); });
			} catch (sub::STLError&) {
				// too much for a binary STL file
				write_ok = false;
			}
			unlink(path.c_str());
		}
		if (k) {
			judge(name + ": reading", read, k, sizes);
			judge(name + ": collecting", collected, k, sizes);
			judge(name + ": dumping", dumped, k, sizes);
			if (write_ok) { judge(name + ": writing", written, k, sizes); }
			// no need to spend more on what is already too much
			if (st().failed_this_case) { return; }
		}
	}
	if (write_ok) { count("writes-judged"); }
	count(string(format_name(shape.format)) + "-families");
	if (st().samples.size() < 2) {
		sample(name + ": " + std::to_string(sizes[0]) + ", " + std::to_string(sizes[1]) + ", " + std::to_string(sizes[2]) + " bytes; blocks of code executed in reading "
		       + num(read[0].blocks) + ", " + num(read[1].blocks) + ", " + num(read[2].blocks) + "; peak bytes " + num(read[0].peak) + ", " + num(read[1].peak) + ", " + num(read[2].peak));
	}
}

}

int main(int argc, char** argv)
{
	if (char const* s = getenv("VERIF_STEPS")) { STEPS = atoi(s); }
	return run(argc, argv, "C24", c24);
}
