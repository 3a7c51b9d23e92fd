// C01: whatever is read, the reader, collect, dump and the writer end in a result or a standard exception.
// The sanitizers are the monitor; this program supplies the bytes.
#include "soup.h"

using namespace h;

static string random_bytes(Rng& r)
{
	string s;
	size_t const n = r.skewed(5000);
	bool const ascii = r.coin();
	static string const chars = "0123456789:,.->< \n\r{}\\\"#&$^|=;/xab";
	for (size_t i = 0; i < n; ++i) { s += ascii ? chars[r.below(chars.size())] : char(r.below(256)); }
	return s;
}

static void c01(Rng& r, uint64_t i)
{
	QuietCout q;
	Scenario s;
	int const how = r.below(10);
	if (how < 4) {
		ScenarioOpts o;
		o.damage_percent = 100;
		o.size = r.chance(1, 40) ? 60 : 8;
		s = gen_scenario(r, o);
		for (int k = r.skewed(6); k; --k) { s.bytes = damage(r, s.bytes, s.format); }
		count("damaged");
	} else {
		s.format = r.below(FORMATS);
		s.args = gen_args(r);
		if (how < 9) {
			s.bytes = soup(r, s.format);
			if (r.chance(1, 4)) { s.bytes = damage(r, s.bytes, s.format); }
			count("soup");
		} else {
			s.bytes = random_bytes(r);
			count("random");
		}
	}
	// one format's bytes for another format's reader
	if (r.chance(1, 30)) { s.format = r.below(FORMATS); count("crossed"); }
	string const name = format_name(s.format);
	input(name + "\n" + s.bytes);
	judged(name + s.bytes);
	sample(name + ": " + show(s.bytes, 300));
	ProcessOpts p;
	p.delivery = AS_STRING;
	p.words = false;
	auto const x = process(s, p);
	bool const read = x.read.compare(0, 3, "ok\n") == 0;
	count(name + (read ? "-read" : "-refused"));
	if (read && x.read.size() > 4) { count(name + "-with-subtitles"); }
	if (x.dump.compare(0, 3, "ok\n") == 0) { count("dumped"); }
	if (x.written.compare(0, 3, "ok\n") == 0) { count("written"); } else if (!x.written.empty()) { count("writing-refused"); }
	p.delivery = 1 + r.below(DELIVERIES - 1);
	if (p.delivery == AS_UNBUFFERED_FILE && s.bytes.size() > 3000) { p.delivery = AS_MEMORY_FILE; }
	p.seed = r.u64();
	p.write = false;
	process(s, p);
	count(string("by ") + delivery_name(p.delivery));
}

int main(int argc, char** argv) { return run(argc, argv, "C01", c01); }
