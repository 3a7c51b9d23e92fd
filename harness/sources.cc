// C14: the result does not depend on how the same bytes are delivered, nor on the layout of text.
#include "scenarios.h"

using namespace h;

static void c14(Rng& r, uint64_t i)
{
	QuietCout q;
	ScenarioOpts o;
	if (mix(i) % 100 == 5) { o.size = 100; }
	auto s = gen_scenario(r, o);
	if (s.damaged && r.chance(1, 4)) { s.bytes = damage(r, s.bytes, s.format); }
	if (r.chance(1, 60)) { s.bytes = ""; s.damaged = true; }
	string const name = format_name(s.format);
	input(s.bytes);
	judged(name + s.bytes);
	if (s.bytes.size() < 500) { sample(name + ": " + show(s.bytes, 500)); }
	ProcessOpts p;
	p.write = false;
	Result const first = process(s, p);
	bool const ok = first.read.compare(0, 3, "ok\n") == 0;
	count(name + (ok ? "-read" : "-refused"));
	for (int d = 1; d < DELIVERIES; ++d) {
		if (d == AS_UNBUFFERED_FILE && s.bytes.size() > 3000) { continue; }
		p.delivery = d;
		p.seed = r.u64();
		Result const x = process(s, p);
		string key;
		string const e = result_diff(first, x, key);
		if (!e.empty()) { fail(name + " " + delivery_name(d) + " " + key, string("string and ") + delivery_name(d) + ": " + e); return; }
		count("deliveries-compared");
	}
	// by name
	bool const looks_binary = s.bytes.size() >= 11 && s.bytes.compare(3, 3, "STL") == 0;
	if (s.format == SRT || (s.format == STL_TEXT && !looks_binary) || (s.format == STL_BINARY && looks_binary)) {
		string const path = scratch_name(s.format == SRT ? ".srt" : ".stl");
		write_file(path, s.bytes);
		string const x = outcome([&]() { auto f = sub::reader_factory(path); return f ? desc(f->subtitles()) : string("nothing"); });
		unlink(path.c_str());
		if (x != first.read) { fail(name + " by name", "by name: " + diff(first.read, x)); return; }
		count("by-name-compared");
	}
	if (s.damaged || s.format == STL_BINARY) { return; }
	// layouts of the same text
	p.delivery = AS_STRING;
	for (int v = 0; v < 8; ++v) {
		Scenario t = s;
		t.bytes = serialise(s.doc, v & 1 ? "\r\n" : "\n", v & 2, !(v & 4));
		Result const x = process(t, p);
		if (x.read != first.read) {
			input(t.bytes);
			fail(name + " layout", string(v & 1 ? "CRLF " : "LF ") + (v & 2 ? "BOM " : "") + (v & 4 ? "no final newline" : "") + ": " + diff(first.read, x.read));
			return;
		}
		count("layouts-compared");
	}
	// one line of any length
	if (mix(i) % 8 == 0 && s.format != SSA) {
		size_t const n = r.pick(vector<size_t>{ 255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 65535, 65536, 100000 }) + r.range(-2, 2);
		string const text(n, 'x');
		Scenario t = s;
		switch (s.format) {
		case SRT: t.bytes = "1\n00:00:01,000 --> 00:00:02,000\n" + text + "\n\n"; break;
		case VTT: t.bytes = "WEBVTT\n\n00:00:01.000 --> 00:00:02.000\n" + text + "\n\n"; break;
		default: t.bytes = "00:00:01:00 , 00:00:02:00 ,x" + text + "\n"; break;
		}
		for (int d = 0; d < DELIVERIES; ++d) {
			if (d == AS_UNBUFFERED_FILE && n > 9000) { continue; }
			auto const subs = read_as(s.format, t.bytes, d, r.u64())->subtitles();
			string all;
			for (auto const& k: subs) { all += k.text; if (k.vertical_position.line && *k.vertical_position.line != 0) { fail("long-line", name + ": a line of " + std::to_string(n) + " bytes became several"); } }
			if (all != (s.format == STL_TEXT ? "x" : "") + text) { input("a line of " + std::to_string(n)); fail("long-line", name + ": of a line of " + std::to_string(n) + " bytes there are " + std::to_string(all.size())); }
		}
		count("long-lines");
	}
}

// other cases when sanitized
int main(int argc, char** argv)
{
	string mode;
	for (int i = 1; i + 1 < argc; ++i) { if (!strcmp(argv[i], "--mode")) { mode = argv[i + 1]; } }
	return run(argc, argv, mode, c14);
}
