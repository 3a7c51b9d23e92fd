// A document of any format, well formed or damaged, and everything the library can do with it, described in full.
#ifndef VERIF_SCENARIOS_H
#define VERIF_SCENARIOS_H

#include "gen_ssa.h"
#include "stl_file.h"
#include "reader_factory.h"
#include "ssa_reader.h"
#include "stl_binary_reader.h"
#include "stl_text_reader.h"
#include "subrip_reader.h"
#include "util.h"
#include "web_vtt_reader.h"
#include <memory>
#include <thread>

namespace h {

enum Format { SRT, VTT, SSA, STL_TEXT, STL_BINARY, FORMATS };
inline char const* format_name(int f) { static char const* n[] = { "srt", "vtt", "ssa", "stl-text", "stl-binary" }; return n[f]; }

struct Scenario
{
	int format = SRT;
	string bytes;
	bool damaged = false;
	TextDoc doc;         // text formats, as generated
	int stl_rate = 25;
	WriteArgs args;
};

struct ScenarioOpts
{
	int damage_percent = 30;
	bool unicode = true;
	bool huge = true;
	int size = 8;
	int only = -1;
};

// arbitrary damage to a document
inline string damage(Rng& r, string s, int format)
{
	static vector<string> const tokens = {
		"-->", "\n\n", "\r\n", "\r", "00:00:01,000 --> 00:00:02,000", "00:00:01.000 --> 00:00:02.000", "<i>", "</i>", "<b>", "</b>", "<u>", "</u>", "{i}", "{/i}",
		"<font color=\"#ff00", "<font color=\"#ff0000\">", "<font color=\"rgba(1,2,3", "</font>", "{\\an8}", "{\\pos(1,2)}", "{\\an", "{\\", "{", "}", "<", ">", "WEBVTT", "NOTE", "STYLE\n",
		"\xef\xbb\xbf", "\xe2\x80\xa8", "\xe2\x80\xab", "\xc3", string(1, '\0'), "[V4+ Styles]\n", "[Events]\n", "[Script Info]\n", "Format: ", "Style: ", "Dialogue: ", "Dialogue: 0,0:00:01.00,0:00:02.00,Default,",
		"\\N", "\\n", "\\h", "{\\i1}", "{\\fs20}", "{\\c&HFF&}", "{\\r}", "{\\c&H", "PlayResX: 0\n", "PlayResY: 0\n", "PlayResY: -1\n", "&H", ",", ",,,,,,,,,,", ":", "|", "^I", "^B", "^U", "$Italic = TRUE\n", "$FontSize = 99999999999\n", "$FontName\n", "$", "=", "//",
		"-1", "0", "99999999999999999999", "2147483647", "-2147483648", "1e400", "nan", "0x10", " ", "\t", "\x8a", "\x8f", "\xff", "\xfe", "\x80", "\x81", "\x0a"
	};
	static char const* bytes = "0123456789:,.->< \n\r{}\\\"#&$^|=;/x";
	int const n = 1 + r.skewed(8);
	for (int i = 0; i < n; ++i) {
		size_t const at = r.below(s.size() + 1);
		switch (r.below(9)) {
		case 0: if (!s.empty()) { s[r.below(s.size())] = r.below(256); } break;
		case 1: if (!s.empty()) { s[r.below(s.size())] = bytes[r.below(strlen(bytes))]; } break;
		case 2: s.insert(at, 1, bytes[r.below(strlen(bytes))]); break;
		case 3: if (!s.empty()) { s.erase(r.below(s.size()), 1 + r.skewed(40)); } break;
		case 4: s.insert(at, s.substr(r.below(s.size() + 1), r.skewed(200))); break;
		case 5: if (r.chance(1, 4)) { s.resize(at); } else { s.insert(at, string(1, char(r.below(256)))); } break;
		case 6: if (!s.empty()) { s[r.below(s.size())] ^= 1 << r.below(8); } break;
		default: s.insert(at, tokens[r.below(tokens.size())]); break;
		}
		if (format == STL_BINARY && r.coin() && s.size() > 1024) {
			// numbers in the blocks' own fields
			size_t const blocks = (s.size() - 1024) / 128;
			if (blocks) { s[1024 + 128 * r.below(blocks) + r.below(17)] = r.pick(vector<int>{ 0, 1, 0xff, 0xfe, 0xf0, 0x80, 0x7f, static_cast<int>(r.below(256)) }); }
		}
		if (format == STL_BINARY && r.chance(1, 3) && s.size() > 400) {
			static const int fields[][2] = { { 0, 3 }, { 3, 8 }, { 11, 1 }, { 12, 2 }, { 14, 2 }, { 236, 2 }, { 238, 5 }, { 243, 5 }, { 248, 3 }, { 251, 2 }, { 253, 2 }, { 255, 1 }, { 272, 2 }, { 274, 3 } };
			auto const& f = r.pick(fields);
			s[f[0] + r.below(f[1])] = r.coin() ? '0' + r.below(10) : r.below(256);
		}
	}
	if (s.size() > 200000) { s.resize(200000); }
	return s;
}

inline Scenario gen_scenario(Rng& r, ScenarioOpts const& o = {})
{
	Scenario s;
	s.format = o.only >= 0 ? o.only : r.below(FORMATS);
	switch (s.format) {
	case SRT: { SrtOpts p; p.text.unicode = o.unicode; p.text.huge = o.huge; p.max_cues = o.size; s.doc = gen_srt(r, p); s.bytes = s.doc.bytes; break; }
	case VTT: { VttOpts p; p.text.unicode = o.unicode; p.text.huge = o.huge; p.max_cues = o.size; s.doc = gen_vtt(r, p); s.bytes = s.doc.bytes; break; }
	case SSA: { SsaOpts p; p.text.unicode = o.unicode; p.text.huge = o.huge; p.max_events = o.size; p.position_heavy = r.coin(); s.doc = gen_ssa(r, p); s.bytes = s.doc.bytes; break; }
	case STL_TEXT: { StlTextOpts p; p.text.unicode = o.unicode; p.text.huge = o.huge; p.max_cues = o.size; s.doc = gen_stl_text(r, p); s.bytes = s.doc.bytes; break; }
	default: { StlBinOpts p; p.max_subs = o.size; p.header_texts = r.coin(); auto d = gen_stl_bin(r, p); s.bytes = d.bytes; s.stl_rate = d.rate; break; }
	}
	s.args = gen_args(r);
	if (r.coin()) { s.args.fps = r.pick(rate_codes).fps; }
	if (r.below(100) < static_cast<uint64_t>(o.damage_percent)) {
		s.bytes = damage(r, s.bytes, s.format);
		s.damaged = true;
	}
	return s;
}

// ---------------------------------------------------------------- ways of giving bytes to a reader
enum Delivery { AS_STRING, AS_MEMORY_FILE, AS_DISK_FILE, AS_PIPE, AS_UNBUFFERED_FILE, DELIVERIES };
inline char const* delivery_name(int d) { static char const* n[] = { "string", "memory file", "disk file", "pipe", "unbuffered disk file" }; return n[d]; }

// hands out a few bytes at a time, and cannot seek
class TrickleBuf : public std::streambuf
{
public:
	TrickleBuf(string const& s, uint64_t seed) : _s(s), _r(seed) {}
protected:
	int_type underflow() override {
		if (gptr() < egptr()) { return traits_type::to_int_type(*gptr()); }
		if (_at >= _s.size()) { return traits_type::eof(); }
		size_t n = std::min<size_t>(_s.size() - _at, 1 + _r.skewed(50));
		_b.assign(_s, _at, n);
		_at += n;
		setg(&_b[0], &_b[0], &_b[0] + n);
		return traits_type::to_int_type(*gptr());
	}
private:
	string const& _s;
	Rng _r;
	size_t _at = 0;
	string _b;
};

// feeds a pipe in small pieces from another thread
class Feeder
{
public:
	Feeder(string const& s, uint64_t seed) {
		int p[2];
		if (pipe(p) != 0) { fprintf(stderr, "harness: no pipe\n"); _exit(3); }
		_f = fdopen(p[0], "r");
		if (!_f) { fprintf(stderr, "harness: fdopen\n"); _exit(3); }
		int const w = p[1];
		_t = std::thread([s, seed, w]() {
			Rng r(seed);
			size_t at = 0;
			while (at < s.size()) {
				size_t n = std::min<size_t>(s.size() - at, 1 + r.skewed(s.size() > 5000 ? 3000 : 60));
				ssize_t const x = ::write(w, s.data() + at, n);
				if (x <= 0) { break; }
				at += x;
				if (r.chance(1, 16)) { std::this_thread::yield(); }
			}
			close(w);
		});
	}
	~Feeder() {
		// whatever was not read; then the writer can end
		char b[4096];
		while (fread(b, 1, sizeof(b), _f) > 0) {}
		_t.join();
		fclose(_f);
	}
	FILE* get() const { return _f; }
private:
	FILE* _f;
	std::thread _t;
};

inline string scratch_name(string const& suffix)
{
	return st().scratch + "/s" + suffix;
}

inline std::shared_ptr<sub::Reader> read_file_format(int format, FILE* f)
{
	switch (format) {
	case SRT: return std::make_shared<sub::SubripReader>(f);
	case VTT: return std::make_shared<sub::WebVTTReader>(f);
	default: return std::make_shared<sub::SSAReader>(f);
	}
}

inline std::shared_ptr<sub::Reader> read_stream_format(int format, std::istream& s)
{
	if (format == STL_TEXT) { return std::make_shared<sub::STLTextReader>(s); }
	return std::make_shared<sub::STLBinaryReader>(s);
}

inline std::shared_ptr<sub::Reader> read_as(int format, string const& bytes, int delivery = AS_STRING, uint64_t seed = 1)
{
	if (format == STL_TEXT || format == STL_BINARY) {
		// binary STL can be read from a FILE too
		if (format == STL_BINARY && delivery != AS_STRING && mix(seed) & 1) {
			switch (delivery) {
			case AS_MEMORY_FILE: { MemFile f(bytes); return std::make_shared<sub::STLBinaryReader>(f.get()); }
			case AS_PIPE: { Feeder f(bytes, seed); return std::make_shared<sub::STLBinaryReader>(f.get()); }
			default: {
				string const p = scratch_name(".f");
				write_file(p, bytes);
				std::unique_ptr<FILE, int (*)(FILE*)> f(fopen(p.c_str(), "r"), fclose);
				if (!f) { fprintf(stderr, "harness: fopen\n"); _exit(3); }
				if (delivery == AS_UNBUFFERED_FILE) { setvbuf(f.get(), 0, _IONBF, 0); }
				return std::make_shared<sub::STLBinaryReader>(f.get());
			}
			}
		}
		switch (delivery) {
		case AS_STRING: { std::istringstream s(bytes); return read_stream_format(format, s); }
		case AS_MEMORY_FILE: { std::stringstream s; s << bytes; return read_stream_format(format, s); }
		case AS_PIPE: { TrickleBuf b(bytes, seed); std::istream s(&b); return read_stream_format(format, s); }
		case AS_UNBUFFERED_FILE: {
			string const p = scratch_name(".u");
			write_file(p, bytes);
			std::ifstream s;
			s.rdbuf()->pubsetbuf(0, 0);
			s.open(p, std::ios::binary);
			return read_stream_format(format, s);
		}
		default: {
			string const p = scratch_name(".f");
			write_file(p, bytes);
			std::ifstream s(p);
			return read_stream_format(format, s);
		}
		}
	}
	switch (delivery) {
	case AS_STRING:
		switch (format) {
		case SRT: return std::make_shared<sub::SubripReader>(bytes);
		case VTT: return std::make_shared<sub::WebVTTReader>(bytes);
		default: return std::make_shared<sub::SSAReader>(bytes);
		}
	case AS_MEMORY_FILE: { MemFile f(bytes); return read_file_format(format, f.get()); }
	case AS_PIPE: { Feeder f(bytes, seed); return read_file_format(format, f.get()); }
	default: {
		string const p = scratch_name(".f");
		write_file(p, bytes);
		std::unique_ptr<FILE, int (*)(FILE*)> f(fopen(p.c_str(), "r"), fclose);
		if (!f) { fprintf(stderr, "harness: fopen\n"); _exit(3); }
		if (delivery == AS_UNBUFFERED_FILE) { setvbuf(f.get(), 0, _IONBF, 0); }
		return read_file_format(format, f.get());
	}
	}
}

// ---------------------------------------------------------------- everything that can be done
struct Result
{
	string read, metadata, collected, dump, written;
	string all() const { return read + "\n----\n" + metadata + "\n----\n" + collected + "\n----\n" + dump + "\n----\n" + written; }
};

// the first stage in which two results differ, and how
inline string result_diff(Result const& a, Result const& b, string& key)
{
	struct { char const* n; string Result::*m; } const stages[] = { { "subtitles", &Result::read }, { "metadata", &Result::metadata }, { "collected", &Result::collected }, { "dump", &Result::dump }, { "written", &Result::written } };
	for (auto const& s: stages) {
		if (a.*(s.m) != b.*(s.m)) { key = s.n; return string(s.n) + " differ " + diff(a.*(s.m), b.*(s.m)); }
	}
	return "";
}

// only the kind of error, not its words
inline string kind_of(string const& outcome)
{
	if (outcome.compare(0, 3, "ok\n") == 0) { return outcome; }
	string o = outcome.substr(0, outcome.compare(0, 10, "exception ") == 0 ? outcome.find(':') : outcome.find(' '));
	return o;
}

struct ProcessOpts
{
	int delivery = AS_STRING;
	bool write = true;
	string tag;          // for scratch files
	bool words = true;   // with the words of errors
	uint64_t seed = 1;
};

inline Result process(Scenario const& s, ProcessOpts const& o = {})
{
	Result x;
	auto oc = [&](std::function<string ()> f) { string const r = outcome(f); return o.words ? r : kind_of(r); };
	std::shared_ptr<sub::Reader> reader;
	x.read = oc([&]() { reader = read_as(s.format, s.bytes, o.delivery, o.seed); return desc(reader->subtitles()); });
	if (!reader) { return x; }
	x.metadata = oc([&]() { return desc(reader->metadata()); });
	vector<sub::Subtitle> subs;
	bool collected = false;
	x.collected = oc([&]() { subs = sub::collect<vector<sub::Subtitle>>(reader->subtitles()); collected = true; return desc(subs); });
	x.dump = oc([&]() { std::ostringstream d; d.imbue(std::locale::classic()); sub::dump(reader, d); return d.str(); });
	if (o.write && collected) {
		x.written = oc([&]() {
			string const path = st().scratch + "/w" + o.tag + ".stl";
			struct Remove { string p; ~Remove() { unlink(p.c_str()); } } remove{ path };
			write(subs, s.args, path);
			return read_file(path);
		});
	}
	return x;
}

}

#endif
