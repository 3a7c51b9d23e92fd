// C16: what is malformed is refused, with the right kind of error, which says where.
#include "scenarios.h"
#include <cerrno>
#include <list>

using namespace h;

namespace {

struct Refusal
{
	string kind;            // "" if nothing was thrown
	string what;
	int line = 0;
	std::list<string> context;
};

Refusal refusal(std::function<void ()> f)
{
	Refusal x;
	try { f(); }
	catch (sub::SubripError& e) { x.kind = "SubripError"; x.what = e.what(); x.line = e.line_number(); x.context = e.context(); }
	catch (sub::WebVTTHeaderError& e) { x.kind = "WebVTTHeaderError"; x.what = e.what(); x.context = e.context(); }
	catch (sub::WebVTTError& e) { x.kind = "WebVTTError"; x.what = e.what(); x.context = e.context(); }
	catch (sub::STLError& e) { x.kind = "STLError"; x.what = e.what(); }
	catch (sub::SSAError& e) { x.kind = "SSAError"; x.what = e.what(); }
	catch (std::exception& e) { x.kind = string("another: ") + typeid(e).name(); x.what = e.what(); }
	return x;
}

// one number of a time, spoiled
string bad_number(Rng& r, string n)
{
	switch (r.below(12)) {
	case 11: {
		// any byte that has no part in a number, a time or a line
		char c;
		do { c = char(r.chance(1, 4) ? 0 : r.below(256)); } while (isalnum(static_cast<unsigned char>(c)) || strchr(" \t\v\f\r\n:,.;+-", c ? c : ' ') != nullptr && c);
		n.insert(r.below(3) == 0 ? 0 : r.coin() ? n.size() : r.below(n.size() + 1), 1, c);
		return n;
	}
	case 0: return "";
	case 1: return "x";
	case 2: return n + "x";
	case 3: return "x" + n;
	case 4: return "0x1";
	case 5: return "1e1";
	case 6: return n + "_0";
	case 7: return "\xd9\xa1";
	case 8: return "99999999999999999999";
	case 9: { n.insert(r.below(n.size() + 1), 1, "abcXYZ_/()*"[r.below(11)]); return n; }
	default: return "O" + n.substr(1);
	}
}

// a time h:m:s<sep>ms, spoiled in one way
string bad_time(Rng& r, char sep, bool short_form_ok)
{
	vector<string> p = { "00", "01", "02", "345" };
	for (auto& i: p) { if (&i != &p[0] && r.coin()) { i[i.size() - 1] = '0' + r.below(10); } }
	string const s(1, sep);
	string const other(1, sep == ',' ? '.' : ',');
	switch (r.below(short_form_ok ? 8 : 9)) {
	case 0: return p[0] + ":" + p[1] + ":" + p[2];                                  // no fraction
	case 1: return p[0] + ":" + p[1] + ":" + p[2] + ":" + p[3];                     // frames, or so
	case 2: return p[0] + ":" + p[1] + ":" + p[2] + other + p[3];
	case 3: return p[0] + ":" + p[1] + ":" + p[2] + s + p[3] + s + "1";
	case 4: return "00:" + p[0] + ":" + p[1] + ":" + p[2] + s + p[3];
	case 5: return p[2] + s + p[3];
	case 6: case 7: {
		int const i = r.below(4);
		p[i] = bad_number(r, p[i]);
		return p[0] + ":" + p[1] + ":" + p[2] + s + p[3];
	}
	default: return p[1] + ":" + p[2] + s + p[3];                                   // no hours
	}
}

string good_time(Rng& r, char sep) { return srt_time(r, gen_ms(r, 100), sep); }

// a time line, spoiled; `culprit' is what the report should name
string bad_time_line(Rng& r, char sep, bool arrow, string& culprit)
{
	bool const vtt = sep == '.';
	string const a = good_time(r, sep), b = good_time(r, sep);
	string l;
	switch (r.below(arrow ? 4 : 6)) {
	case 0: { culprit = bad_time(r, sep, vtt); l = culprit + " --> " + b; break; }
	case 1: { culprit = bad_time(r, sep, vtt); l = a + " --> " + culprit; break; }
	case 2: culprit = l = a + (r.coin() ? "-->" : "--> ") + b; break;
	case 3: if (vtt) { culprit = l = r.pick(vector<string>{ "-->", "--> " + b, a + " -->" }); break; }
		culprit = l = a + " --> " + b + r.pick(vector<string>{ " X1:1", " X1:1 X2:2", " X1:1 X2:2 Y1:3", " X1:1 X2:2 Y1:3 Y2:4 Z:5", " x --> y z a" }); break;
	case 4: culprit = l = r.pick(vector<string>{ "", a, a + " -->", "--> " + b, "hello", "some text here now", a + " " + b, "00:00" }); break;
	default: {
		string const t = a + " --> " + b;
		culprit = l = t.substr(0, r.below(t.size() - 5));
		while (!l.empty() && l.back() == ' ') { l.pop_back(); culprit = l; }
		// cut in the second time: that is what is at fault
		auto const p = l.find("--> ");
		if (p != string::npos) { culprit = l.substr(p + 4); }
	}
	}
	return l;
}

// a contiguous part of the file's lines, which reaches line `line' and ends there or just after
bool context_ok(std::list<string> const& c, vector<string> const& lines, size_t line)
{
	if (c.empty()) { return false; }
	for (size_t end = line; end <= line + 2 && end <= lines.size(); ++end) {
		if (c.size() > end || end - c.size() + 1 > line) { continue; }
		if (std::equal(c.begin(), c.end(), lines.begin() + (end - c.size()))) { return true; }
	}
	return false;
}

string show_context(std::list<string> const& c) { string s; for (auto const& i: c) { s += "[" + show(i, 80) + "]"; } return s; }

void check_text(TextDoc const& d, int format, size_t line, string const& kind, string const& culprit, Rng& r)
{
	input(d.bytes);
	judged(d.bytes);
	string const name = format_name(format);
	for (int way = 0; way < 3; ++way) {
		string how = "string";
		Refusal x;
		if (way == 0) { x = refusal([&]() { read_as(format, d.bytes, AS_STRING); }); }
		else if (way == 1) { int const del = 1 + r.below(DELIVERIES - 1); how = delivery_name(del); x = refusal([&]() { read_as(format, d.bytes, del, r.u64()); }); }
		else {
			if (format != SRT || !r.chance(1, 4)) { continue; }
			how = "by name";
			string const path = scratch_name(".srt");
			write_file(path, d.bytes);
			x = refusal([&]() { sub::reader_factory(path); });
			unlink(path.c_str());
		}
		string const where = name + " " + how + ", fault [" + show(culprit, 100) + "] in line " + std::to_string(line) + ": ";
		if (x.kind.empty()) { fail(name + " accepted", where + "was accepted"); return; }
		if (x.kind != kind) { fail(name + " kind", where + "gave " + x.kind + " (" + x.what + ")"); return; }
		if (kind == "SubripError") {
			if (x.line != int(line)) { fail(name + " line", where + "was reported in line " + std::to_string(x.line) + " (" + x.what + ")"); return; }
			if (x.what.find(std::to_string(line)) == string::npos) { fail(name + " words", where + "the report does not name the line: " + x.what); return; }
		}
		if (kind == "SubripError" || kind == "WebVTTError") {
			// the report is a C string
			if (x.what.find(culprit.c_str()) == string::npos) { fail(name + " words", where + "the report does not show the fault: " + x.what); return; }
			if (!context_ok(x.context, d.lines, line)) { fail(name + " context", where + "the context is " + show_context(x.context)); return; }
			count("contexts-checked");
		}
		count(name + "-refused");
	}
	if (line > 50) { count("faults-after-line-50"); }
}

// what a line is without the mark at its start, as it is reported
void unmark(TextDoc& d)
{
	for (auto& l: d.lines) { if (l.compare(0, 3, "\xef\xbb\xbf") == 0) { l = l.substr(3); } }
}

bool readable(TextDoc const& d, int format)
{
	string e;
	auto const x = refusal([&]() { read_as(format, d.bytes); });
	if (!x.kind.empty()) { input(d.bytes); fail(string(format_name(format)) + " well-formed", "a well-formed document was refused: " + x.kind + " " + x.what); }
	return x.kind.empty();
}

void srt_time_line(Rng& r, uint64_t i)
{
	SrtOpts o;
	if (mix(i) % 37 == 0) { o.max_cues = 300; }
	auto d = gen_srt(r, o);
	if (!readable(d, SRT)) { return; }
	size_t const line = r.pick(d.time_lines);
	string culprit;
	d.lines[line - 1] = bad_time_line(r, ',', false, culprit);
	// nothing is after an unfinished file
	if (r.chance(1, 10)) { d.lines.resize(line); }
	unmark(d);
	// an empty last line needs its line end to be a line
	if (d.lines.back().empty()) { d.final_eol = true; }
	d.bytes = serialise(d, d.eol, d.bom, d.final_eol);
	check_text(d, SRT, line, "SubripError", culprit, r);
	count("srt-time-lines");
}

void srt_colour(Rng& r, uint64_t i)
{
	SrtOpts o;
	if (mix(i) % 37 == 0) { o.max_cues = 300; }
	auto d = gen_srt(r, o);
	// a line of text which follows a time line
	vector<size_t> texts;
	for (auto t: d.time_lines) { if (t < d.lines.size() && !d.lines[t].empty()) { texts.push_back(t + 1); } }
	if (texts.empty()) { return; }
	if (!readable(d, SRT)) { return; }
	size_t line = r.pick(texts);
	while (r.coin() && line < d.lines.size() && !d.lines[line].empty()) { ++line; }
	string const bad = r.pick(vector<string>{
		"#12345", "#1234567", "#123", "#1", "#", "#123456789", "red", "", "#gggggg", "#g12345", "rgba(1,2,3)", "rgba(1,2,3,x)", "rgb(1,2,3)", "rgba(1,2,3,4", "rgba(,2,3,4)", "rgba(1,2,3,4,5)", "rgba(-1,2,3,4)", "hsl(1,2,3)", "ff0000"
	});
	string const q = r.pick(vector<string>{ "\"", "\"", "'" });
	string const attribute = r.chance(3, 4) ? string("color") : random_case(r, "color");
	string const tag = "<" + random_case(r, "font") + " " + attribute + "=" + q + bad + q + ">";
	auto& l = d.lines[line - 1];
	// at the end of the line, where it cannot be taken for part of anything else
	l += " " + tag + (r.coin() ? gen_text(r, o.text) : "") + (r.coin() ? "</font>" : "");
	unmark(d);
	d.bytes = serialise(d, d.eol, d.bom, d.final_eol);
	check_text(d, SRT, line, "SubripError", attribute + "=" + q + bad + q, r);
	count("srt-colours");
}

void vtt(Rng& r, uint64_t i)
{
	VttOpts o;
	if (mix(i) % 37 == 0) { o.max_cues = 300; }
	auto d = gen_vtt(r, o);
	if (!readable(d, VTT)) { return; }
	unmark(d);
	if (r.chance(1, 4) || d.time_lines.empty()) {
		switch (r.below(6)) {
		case 0: d.lines.erase(d.lines.begin()); break;
		case 1: d.lines[0] = r.pick(vector<string>{ "WEBVT", "webvtt", " WEBVTT", "WebVTT", "EBVTT", "\tWEBVTT", "1", "" }); break;
		case 2: d.lines.insert(d.lines.begin(), ""); break;
		case 3: d.lines.clear(); break;
		case 4: d.lines.insert(d.lines.begin(), "1"); break;
		default: d.lines[0].insert(r.below(6), 1, '-'); break;
		}
		d.bytes = d.lines.empty() ? (r.coin() ? "" : "\xef\xbb\xbf") : serialise(d, d.eol, d.bom, d.final_eol);
		if (!d.lines.empty() && d.lines[0].compare(0, 6, "WEBVTT") == 0) { return; }
		check_text(d, VTT, 1, "WebVTTHeaderError", "", r);
		count("vtt-headers");
		return;
	}
	size_t const line = r.pick(d.time_lines);
	string culprit;
	d.lines[line - 1] = bad_time_line(r, '.', true, culprit);
	if (r.chance(1, 10)) { d.lines.resize(line); }
	if (d.lines.back().empty()) { d.final_eol = true; }
	d.bytes = serialise(d, d.eol, d.bom, d.final_eol);
	check_text(d, VTT, line, "WebVTTError", culprit, r);
	count("vtt-time-lines");
}

void check_binary(string const& bytes, string const& fault, Rng& r, bool bad = true)
{
	for (int way = 0; way < 3; ++way) {
		Refusal x;
		string how;
		if (way == 0) { how = "stream"; x = refusal([&]() { std::istringstream s(bytes); sub::STLBinaryReader k(s); }); }
		else if (way == 1) { how = "file"; x = refusal([&]() { MemFile f(bytes); sub::STLBinaryReader k(f.get()); }); }
		else {
			if (!r.chance(1, 8)) { continue; }
			int const del = 1 + r.below(DELIVERIES - 1);
			how = delivery_name(del);
			x = refusal([&]() { read_as(STL_BINARY, bytes, del, r.u64()); });
		}
		string const e = how + ", " + fault + ": ";
		if (bad && x.kind.empty()) { fail("stl-binary accepted", e + "was accepted"); return; }
		if (bad && x.kind != "STLError") { fail("stl-binary kind", e + "gave " + x.kind + " " + x.what); return; }
		if (!bad && !x.kind.empty()) { fail("stl-binary well-formed", e + "was refused: " + x.kind + " " + x.what); return; }
		count(bad ? "stl-binary-refused" : "stl-binary-read");
	}
}

void binary(Rng& r, uint64_t i)
{
	StlBinOpts o;
	o.header_texts = r.coin();
	auto d = gen_stl_bin(r, o);
	input(d.bytes);
	judged(d.bytes + std::to_string(i));
	check_binary(d.bytes, "well-formed", r, false);
	auto header = [&]() { return d.header; };
	auto with = [&](Header const& h) { string s = d.bytes; s.replace(0, 1024, h.bytes()); return s; };
	switch (r.below(4)) {
	case 0: {
		// every way of cutting it, or a few dozen
		vector<size_t> cuts = { 0, 1, 3, 10, 11, 256, 1022, 1023, d.bytes.size() - 1 };
		if (!d.blocks.empty()) { cuts.insert(cuts.end(), { 1024, 1025, d.bytes.size() - 128, d.bytes.size() - 127, d.bytes.size() - 112 }); }
		for (size_t b = 1024; b + 128 < d.bytes.size() && cuts.size() < 60; b += 128) { cuts.push_back(b); }
		for (int k = 0; k < 20; ++k) { cuts.push_back(r.below(d.bytes.size())); }
		for (auto c: cuts) {
			if (c >= d.bytes.size()) { continue; }
			check_binary(d.bytes.substr(0, c), "cut to " + std::to_string(c) + " of " + std::to_string(d.bytes.size()) + " bytes", r);
			count("cuts");
		}
		break;
	}
	case 1: {
		auto h = header();
		string what;
		switch (r.below(5)) {
		case 0: do { h.dsc = string(1, char(r.chance(1, 2) ? r.range(33, 126) : r.below(256))); } while (h.dsc == "0" || h.dsc == "1" || h.dsc == "2" || h.dsc == " "); what = "display standard " + show(h.dsc); break;
		case 1: do { h.cct = { char(r.range(33, 126)), char(r.range(33, 126)) }; } while (h.cct >= "00" && h.cct <= "04"); what = "character code table " + show(h.cct); break;
		case 2: {
			bool known;
			do {
				h.lc = r.coin() ? string{ char('0' + r.below(8)), "0123456789ABCDEF"[r.below(16)] } : string{ char(r.range(33, 96)), char(r.range(33, 96)) };
				known = false;
				for (auto const& k: language_codes) { known = known || h.lc == k.code; }
			} while (known);
			what = "language " + show(h.lc);
			break;
		}
		case 3: do { h.tcs = string(1, char(r.chance(1, 2) ? r.range(33, 126) : r.below(256))); } while (h.tcs == "0" || h.tcs == "1" || h.tcs == " "); what = "time code status " + show(h.tcs); break;
		default: h.dfc = r.pick(vector<string>{ "STL26.01", "STL25.02", "STL25,01", "STL2501", "stl25.01", "STL", "", "STLxx.01", "STL99.01", "STL 5.01" }); what = "disk format " + h.dfc; break;
		}
		check_binary(with(h), what, r);
		count("unknown-header-codes");
		break;
	}
	case 2: {
		if (d.blocks.empty()) { return; }
		int const b = r.below(d.blocks.size()), c = r.range(2, 255);
		string s = d.bytes;
		s[1024 + 128 * b + 15] = c;
		check_binary(s, "comment flag " + std::to_string(c) + " in block " + std::to_string(b), r);
		count("unknown-comment-flags");
		break;
	}
	default: {
		auto h = header();
		int const n = d.blocks.size() + r.range(1, r.coin() ? 3 : 1000);
		h.tnb = pad_number(r, n, 5);
		check_binary(with(h), "number of blocks " + h.tnb + " but " + std::to_string(d.blocks.size()) + " present", r);
		count("blocks-missing");
	}
	}
}

string ssa_time(Rng& r) { char b[64]; snprintf(b, sizeof(b), "%d:%02d:%02d.%02d", int(r.below(10)), int(r.below(60)), int(r.below(60)), int(r.below(100))); return b; }

void ssa(Rng& r, uint64_t)
{
	vector<string> lines = { "[Script Info]", "ScriptType: v4.00+", "PlayResX: 640", "PlayResY: 480", "", "[V4+ Styles]",
		"Format: Name, Fontname, Fontsize, PrimaryColour, Alignment, MarginL, MarginR, MarginV",
		"Style: Default,Arial,30,&H00FFFFFF,2,10,10,10", "", "[Events]", "Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text" };
	int const n = 1 + r.skewed(10);
	TextOpts t; t.forbid = "{\\"; t.edges = false;
	int const bad = r.below(n);
	vector<string> good = lines;
	for (int i = 0; i < n; ++i) {
		string a = ssa_time(r), b = ssa_time(r);
		string const rest = ",Default,,0,0,0,," + gen_text(r, t);
		good.push_back("Dialogue: 0," + a + "," + b + rest);
		if (i == bad) {
			string p[4] = { "1", "02", "03", "45" };
			string x;
			switch (r.below(6)) {
			case 0: x = "1:02:03"; break;
			case 1: x = "02:03.45"; break;
			case 2: x = "0:1:02:03.45"; break;
			case 3: x = r.pick(vector<string>{ "", "x", "now", "1-02-03-45", "123", "..", "1:02:03,45" }); if (x.find(',') != string::npos) { x = "1:02:0345"; } break;
			default: { int const k = r.below(4); p[k] = bad_number(r, p[k]); x = p[0] + ":" + p[1] + ":" + p[2] + "." + p[3]; break; }
			}
			(r.coin() ? a : b) = x;
		}
		lines.push_back("Dialogue: 0," + a + "," + b + rest);
	}
	TextDoc d;
	d.lines = good;
	d.bytes = serialise(d, "\n", false, true);
	if (!readable(d, SSA)) { return; }
	d.lines = lines;
	d.bytes = serialise(d, r.coin() ? "\n" : "\r\n", r.chance(1, 4), r.coin());
	input(d.bytes);
	judged(d.bytes);
	for (int way = 0; way < 2; ++way) {
		int const del = way ? r.range(1, DELIVERIES - 1) : 0;
		auto const x = refusal([&]() { read_as(SSA, d.bytes, del, r.u64()); });
		if (x.kind.empty()) { fail("ssa accepted", string(delivery_name(del)) + ": a malformed time was accepted"); return; }
		count("ssa-refused");
	}
}

void stl_text(Rng& r, uint64_t)
{
	StlTextOpts o;
	auto d = gen_stl_text(r, o);
	if (!readable(d, STL_TEXT)) { return; }
	string const expected = desc(read_as(STL_TEXT, d.bytes)->subtitles());
	auto good = [&]() { return hmsf(r.below(24), r.below(60), r.below(60), r.below(25)); };
	string a = good(), b = good();
	string p[4] = { "01", "02", "03", "04" };
	string x;
	switch (r.below(5)) {
	case 0: x = "01:02:03"; break;
	case 1: x = "01:02:03:04:05"; break;
	case 2: x = r.pick(vector<string>{ "xx", "01", "01-02-03-04", "01:02:03.04", "01;02;03;04" }); break;
	default: { int const k = r.below(4); p[k] = bad_number(r, p[k]); x = p[0] + ":" + p[1] + ":" + p[2] + ":" + p[3]; break; }
	}
	(r.coin() ? a : b) = x;
	size_t const at = r.below(d.lines.size() + 1);
	d.lines.insert(d.lines.begin() + at, a + " , " + b + " ,this must not be shown");
	d.bytes = serialise(d, d.eol, d.bom, d.final_eol);
	input(d.bytes);
	judged(d.bytes);
	for (int way = 0; way < 2; ++way) {
		int const del = way ? r.range(1, DELIVERIES - 1) : 0;
		string got;
		auto const e = refusal([&]() { got = desc(read_as(STL_TEXT, d.bytes, del, r.u64())->subtitles()); });
		if (e.kind.empty() && got != expected) { fail("stl-text accepted", string(delivery_name(del)) + ": with a malformed time in line " + std::to_string(at + 1) + ": " + diff(expected, got)); return; }
		count(e.kind.empty() ? "stl-text-line-ignored" : "stl-text-refused");
	}
}

// a file that gives an error after some bytes
struct Failing { string const* s; size_t at, stop; int pieces; };
ssize_t failing_read(void* c, char* b, size_t n)
{
	auto f = static_cast<Failing*>(c);
	if (f->at >= f->stop) { errno = EIO; return -1; }
	n = std::min(n, f->stop - f->at);
	if (f->pieces) { n = std::min<size_t>(n, f->pieces); }
	memcpy(b, f->s->data() + f->at, n);
	f->at += n;
	return n;
}

class FailingBuf : public std::streambuf
{
public:
	FailingBuf(string const& s, size_t stop, size_t pieces) : _s(s), _stop(stop), _pieces(pieces) {}
protected:
	int_type underflow() override {
		if (gptr() < egptr()) { return traits_type::to_int_type(*gptr()); }
		if (_at >= _stop) { throw std::ios_base::failure("error reading the file"); }
		size_t const n = std::min(_stop - _at, _pieces ? _pieces : 8192);
		_b.assign(_s, _at, n);
		_at += n;
		setg(&_b[0], &_b[0], &_b[0] + n);
		return traits_type::to_int_type(*gptr());
	}
private:
	string const& _s;
	size_t _at = 0, _stop, _pieces;
	string _b;
};

void read_error(Rng& r, uint64_t)
{
	ScenarioOpts o;
	o.damage_percent = 0;
	auto s = gen_scenario(r, o);
	string const name = format_name(s.format);
	for (int k = 0; k < 4; ++k) {
		// a binary file is not read to its very end
		size_t const stop = s.format == STL_BINARY ? r.below(s.bytes.size()) : r.chance(1, 4) ? s.bytes.size() : r.below(s.bytes.size() + 1);
		size_t const pieces = r.coin() ? 0 : r.range(1, 100);
		bool const stream = s.format == STL_TEXT || (s.format == STL_BINARY && r.coin());
		input(s.bytes);
		if (k == 0) { judged(s.bytes + std::to_string(stop)); }
		auto const x = refusal([&]() {
			if (stream) {
				FailingBuf b(s.bytes, stop, pieces);
				std::istream f(&b);
				read_stream_format(s.format, f);
				return;
			}
			Failing c = { &s.bytes, 0, stop, int(pieces) };
			cookie_io_functions_t io = { failing_read, 0, 0, 0 };
			std::unique_ptr<FILE, int (*)(FILE*)> f(fopencookie(&c, "r", io), fclose);
			if (!f) { fprintf(stderr, "harness: fopencookie\n"); _exit(3); }
			if (s.format == STL_BINARY) { sub::STLBinaryReader b(f.get()); } else { read_file_format(s.format, f.get()); }
		});
		if (x.kind.empty()) {
			fail(name + " read error", string(stream ? "stream" : "file") + ": an error in reading after " + std::to_string(stop) + " of " + std::to_string(s.bytes.size()) + " bytes was taken for the end of the file");
			return;
		}
		count(name + "-read-errors");
	}
}

void c16(Rng& r, uint64_t i)
{
	QuietCout q;
	switch (mix(i) % 9) {
	case 0: case 1: srt_time_line(r, i); break;
	case 2: srt_colour(r, i); break;
	case 3: case 4: vtt(r, i); break;
	case 5: binary(r, i); break;
	case 6: ssa(r, i); break;
	case 7: read_error(r, i); break;
	default: stl_text(r, i); break;
	}
}

}

int main(int argc, char** argv) { return run(argc, argv, "C16", c16); }
