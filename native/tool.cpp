// Bounded replay for the command line tool: numbers on the command line and the sizes they resolve to.
#define main tool_main
#include "main.cpp"
#undef main
#include "CommandLine.cpp"
#include <cstdint>
#include <cstdio>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <unistd.h>
static std::mt19937_64 rng(1);
static long cases = 0; static int fails = 0;
#define FAIL(...) do { if (fails++ < 12) { printf("FAIL "); printf(__VA_ARGS__); printf("\n"); } } while (0)
#define CHECK(c, ...) do { ++cases; if (!(c)) FAIL(__VA_ARGS__); } while (0)
typedef unsigned long long U;
static U next2(U x) { U p = 1; while (p < x) p *= 2; return p; }
static bool nearest2(U r, U x) { auto d = [&](U a) { return a > x ? a - x : x - a; }; U n = next2(x), p = n > 1 ? n/2 : n; return (r == n || r == p) && d(r) <= d(n) && d(r) <= d(p); }
static void sizes()
{
	std::vector<unsigned> l;
	for (unsigned i = 1; i <= 5000; ++i) l.push_back(i);
	for (unsigned b = 12; b < 32; ++b) for (int d = -3; d <= 3; ++d) { U v = (1ull << b) + d; if (v <= 0x80000000ull) l.push_back((unsigned)v); U m = 3*(1ull << (b - 1)) + d; if (m <= 0x80000000ull) l.push_back((unsigned)m); }
	for (int i = 0; i < 20000; ++i) { unsigned v = (unsigned)(rng() >> (33 + rng() % 31)); if (v) l.push_back(v); }
	typedef CommandLine C;
	static const struct { int v, base, kind; } opts[] = {{C::OriginalSize, 0, 0}, {C::NextPO2, 0, 1}, {C::NearestPO2, 0, 2}, {C::Width, 1, 0}, {C::WidthNextPO2, 1, 1}, {C::WidthNearestPO2, 1, 2}, {C::Height, 2, 0}, {C::HeightNextPO2, 2, 1}, {C::HeightNearestPO2, 2, 2}, {C::Min, 3, 0}, {C::MinNextPO2, 3, 1}, {C::MinNearestPO2, 3, 2}, {C::Max, 4, 0}, {C::MaxNextPO2, 4, 1}, {C::MaxNearestPO2, 4, 2}};
	for (size_t i = 0; i < l.size(); ++i)
	{
		unsigned w = l[i], h = i % 3 ? l[rng() % l.size()] : w, cur = i % 2 ? w : h;
		for (auto& o : opts)
		{
			unsigned b = o.base == 0 ? cur : o.base == 1 ? w : o.base == 2 ? h : o.base == 3 ? std::min(w, h) : std::max(w, h), r = getDimension(cur, w, h, o.v);
			CHECK(o.kind == 0 ? r == b : o.kind == 1 ? r == next2(b) : nearest2(r, b), "size option %d of an image of %u x %u (this side %u) resolves to %u", o.v, w, h, cur, r);
		}
		if (w < 0x80000000u) { unsigned r = getDimension(cur, h, w, (int)w); CHECK(r == w, "size %u resolves to %u", w, r); }
	}
}
struct Num { bool whole, neg; U mag; bool over; };      // a plain decimal number with an optional sign
static Num number(const std::string& s)
{
	Num n = {false, false, 0, false}; size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) ++i;
	if (i < s.size() && (s[i] == '-' || s[i] == '+')) { n.neg = s[i] == '-'; ++i; }
	if (i == s.size()) return n;
	for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return n; if (n.mag > 1000000000000000000ull) n.over = true; else n.mag = n.mag*10 + (s[i] - '0'); }
	n.whole = true; return n;
}
static bool quiet(CommandLine& c, std::vector<std::string> a)
{
	for (const char* s : {"-f", "R8G8B8A8", "-o", "x.dds"}) a.push_back(s);
	std::vector<const char*> v; v.push_back("cuttlefish"); for (auto& s : a) v.push_back(s.c_str());
	std::ostringstream o; auto* e = std::cerr.rdbuf(o.rdbuf()); auto* u = std::cout.rdbuf(o.rdbuf());
	bool r = c.parse((int)v.size(), v.data());
	std::cerr.rdbuf(e); std::cout.rdbuf(u); return r;
}
static void line()
{
	std::vector<std::string> l = {"", " ", "0", "1", "2", "3", "7", "64", "007", "12a", "a12", "1 ", "1.5", "0x10", "1e3", "--1", "-", "+", "+5", "-1", "-0", "-2", "-5", "-15", "-16", "-90", "90", "180", "270", "360", "450", "-270", "-360", "-450", "45", "91", "89", "-91", "720", "810", "100000", "65536", "2147483646", "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "4294967297", "8589934594", "99999999999999999999", "-99999999999999999999", "18446744073709551615", "18446744073709551616", "18446744073709551617", "-18446744073709551615", "9223372036854775807", "9223372036854775808", "nextpo3", "box ", "1,5", "5-", "5-3", "٣"};
	for (int i = 0; i < 400; ++i) { std::string s; int n = 1 + (int)(rng() % 12); for (int k = 0; k < n; ++k) s += "0123456789"[rng() % 10]; if (i % 5 == 0) s.insert(rng() % (s.size() + 1), 1, "abx. -+e"[rng() % 8]); if (i % 7 == 0) s = std::to_string(90*(long)(rng() % 4000) - 180000); l.push_back(s); }
	for (auto& s : l)
	{
		Num n = number(s); const char* q = s.c_str(); bool fits = n.whole && !n.over && (!n.neg || n.mag == 0), loose = !s.empty() && (s[0] == '+' || s[0] == ' ' || s[0] == '-');
		bool idx = fits && n.mag < 0xffffffffull;
		for (const char* opt : {"-j", "-m"})
		{
			CommandLine c; bool r = quiet(c, {"-i", "a.png", opt, s}); unsigned v = opt[1] == 'j' ? c.jobs : c.mipLevels;
			if (!r) CHECK(!idx || loose, "%s '%s' is rejected", opt, q); else CHECK(fits && n.mag == v, "%s '%s' is accepted and gives %u", opt, q, v);
		}
		{
			CommandLine c; bool r = quiet(c, {"-i", "a.png", "--rotate", s}); bool ok = n.whole && !n.over && n.mag <= 0x7fffffffffffffffull && n.mag % 90 == 0; int turns = n.whole ? (int)((n.mag/90) % 4) : 0; if (n.neg) turns = (4 - turns) % 4;
			int got = !c.rotate ? 0 : c.rotateAngle == Image::RotateAngle::CW90 || c.rotateAngle == Image::RotateAngle::CCW270 ? 1 : c.rotateAngle == Image::RotateAngle::CW180 || c.rotateAngle == Image::RotateAngle::CCW180 ? 2 : 3;
			if (!r) CHECK(!ok || loose, "--rotate '%s' is rejected", q); else CHECK(ok && got == turns, "--rotate '%s' is accepted and rotates by %d degrees", q, 90*got);
		}
		for (int side = 0; side < 2; ++side)
		{
			CommandLine c; bool r = quiet(c, side ? std::vector<std::string>{"-i", "a.png", "-r", "33", s} : std::vector<std::string>{"-i", "a.png", "-r", s, "33"}); bool ok = fits && n.mag > 0 && n.mag <= 0x7fffffffull; int v = side ? c.height : c.width, other = side ? c.width : c.height;
			if (!r) CHECK(!ok || loose, "-r with %s '%s' is rejected", side ? "height" : "width", q); else CHECK(ok && (U)v == n.mag && other == 33, "-r with %s '%s' is accepted and gives %d x %d", side ? "height" : "width", q, c.width, c.height);
		}
		bool digits = n.whole && !loose;
		if (n.over || n.mag < 1000 || !digits || n.mag > 0xffffffffull)
		{
			// image indices: element 0..n-1 are given first, so a small index is valid when it is next
			CommandLine c; std::vector<std::string> a; U k = digits && n.mag < 1000 ? n.mag : 0; for (U i = 0; i < k; ++i) { a.push_back("-a"); a.push_back("f.png"); } a.push_back("-a"); a.push_back(s); a.push_back("this.png"); 
			bool r = false, thrown = false; try { r = quiet(c, a); } catch (...) { thrown = true; }
			CHECK(!thrown, "-a '%s' ends with an exception", q);
			if (!r) CHECK(!(digits && n.mag < 1000) , "-a '%s' is rejected", q); else CHECK(idx && c.images.size() == k + 1 && c.images[k] == "this.png" && n.mag == k, "-a '%s' is accepted for %u images", q, (unsigned)c.images.size());
		}
		for (int where = 0; where < 2; ++where)
		{
			CommandLine c; bool r = quiet(c, where == 0 ? std::vector<std::string>{"-i", "a.png", "-m", "-M", s, "m.png"} : std::vector<std::string>{"-a", "a.png", "-a", "b.png", "-a", "c.png", "-m", "-M", "2", s, "m.png"});
			bool ok = idx && (where ? n.mag < 3 : n.mag > 0);
			if (!r) CHECK(!ok || loose, "-M with %s '%s' is rejected", where ? "depth" : "level", q);
			else { CHECK(ok && c.customMipImages.size() == 1, "-M with %s '%s' is accepted", where ? "depth" : "level", q); for (auto& m : c.customMipImages) CHECK((where ? m.first.depth : m.first.mipLevel) == n.mag && m.second.image == "m.png", "-M with %s '%s' gives level %u, depth %u", where ? "depth" : "level", q, m.first.mipLevel, m.first.depth); }
			if (s.find_first_of(" ") != std::string::npos || s.empty()) continue;
			std::string fn = "miplist_" + std::to_string(getpid()) + ".txt"; { std::ofstream f(fn); f << (where ? "2 " : "") << s << " m.png\n"; }
			CommandLine d; r = quiet(d, where == 0 ? std::vector<std::string>{"-i", "a.png", "-m", "--custom-mip-list", fn} : std::vector<std::string>{"-a", "a.png", "-a", "b.png", "-a", "c.png", "-m", "--custom-mip-list", fn}); unlink(fn.c_str());
			// (in a list the rest of the line is the file's name, so what is no depth belongs to it)
			if (where && !(digits && idx)) continue;
			if (!r) CHECK(!ok || loose, "a mip list with %s '%s' is rejected", where ? "depth" : "level", q);
			else for (auto& m : d.customMipImages) CHECK(ok && (where ? m.first.depth : m.first.mipLevel) == n.mag && m.second.image == "m.png", "a mip list with %s '%s' gives level %u, depth %u", where ? "depth" : "level", q, m.first.mipLevel, m.first.depth);
		}
		if (digits && n.mag < 40)
			for (int f = 0; f < 6; ++f)
			{
				static const char* faces[] = {"+x", "-x", "+y", "-y", "+z", "-z"};
				CommandLine c; std::vector<std::string> a; for (U i = 0; i <= n.mag; ++i) for (int g = 0; g < 6; ++g) { if (i == n.mag && g == f) { for (std::string t : {std::string("-C"), s, std::string(faces[g]), std::string("this.png")}) a.push_back(t); } else for (std::string t : {std::string("-C"), std::to_string(i), std::string(faces[g]), std::string("f.png")}) a.push_back(t); }
				bool r = quiet(c, a); CHECK(r && c.images.size() == 6*(n.mag + 1) && c.images[6*n.mag + f] == "this.png", "-C '%s' %s does not set its image", q, faces[f]);
			}
		else if (!idx) { CommandLine c; bool thrown = false, r = false; try { r = quiet(c, {"-C", s, "+x", "a.png"}); } catch (...) { thrown = true; } CHECK(!r && !thrown, "-C '%s' is accepted", q); }
		{
			char* e; double d = s.empty() ? 0 : strtod(q, &e); bool ok = !s.empty() && e != q && !*e; CommandLine c; bool r = quiet(c, {"-i", "a.png", "-n", s});
			if (s.empty()) e = (char*)q; if (r) CHECK(ok && c.normalHeight == d, "-n '%s' is accepted and gives %g", q, c.normalHeight); else CHECK(!ok, "-n '%s' is rejected", q);
		}
	}
	for (const char* w : {"nextpo2", "nearestpo2", "width", "height", "min", "max", "width-nextpo2", "width-nearestpo2", "height-nextpo2", "height-nearestpo2", "min-nextpo2", "min-nearestpo2", "max-nextpo2", "max-nearestpo2"})
	{
		static const std::map<std::string, int> m = {{"nextpo2", CommandLine::NextPO2}, {"nearestpo2", CommandLine::NearestPO2}, {"width", CommandLine::Width}, {"width-nextpo2", CommandLine::WidthNextPO2}, {"width-nearestpo2", CommandLine::WidthNearestPO2}, {"height", CommandLine::Height}, {"height-nextpo2", CommandLine::HeightNextPO2}, {"height-nearestpo2", CommandLine::HeightNearestPO2}, {"min", CommandLine::Min}, {"min-nextpo2", CommandLine::MinNextPO2}, {"min-nearestpo2", CommandLine::MinNearestPO2}, {"max", CommandLine::Max}, {"max-nextpo2", CommandLine::MaxNextPO2}, {"max-nearestpo2", CommandLine::MaxNearestPO2}};
		CommandLine c; bool r = quiet(c, {"-i", "a.png", "-r", w, "9"}); CHECK(r && c.width == m.at(w) && c.height == 9, "-r %s gives %d", w, c.width);
		CommandLine d; r = quiet(d, {"-i", "a.png", "-r", "9", w}); CHECK(r && d.height == m.at(w) && d.width == 9, "-r 9 %s gives %d", w, d.height);
	}
}
static void images()
{
	std::string fn = "image_" + std::to_string(getpid()) + ".bmp";
	for (auto wh : {std::make_pair(5u, 3u), std::make_pair(4u, 12u), std::make_pair(9u, 9u)})
	{
		{ Image im(Image::Format::RGB8, wh.first, wh.second); for (unsigned y = 0; y < wh.second; ++y) for (unsigned x = 0; x < wh.first; ++x) im.setPixel(x, y, ColorRGBAd{x/16.0, y/16.0, 0.5, 1}); if (!im.save(fn.c_str())) { printf("NOTE cannot save an image\n"); return; } }
		for (int n = 0; n < 2; ++n) for (int level = 0; level < 4; ++level) for (int sw : {-1, -2, -3, -4, -5, -6, -7, -8, -9, -10, -11, -12, -13, -14, -15, 7, 20}) for (int sh : {-1, -2, -4, -7, -12, 6})
		{
			CommandLine c; c.log = CommandLine::Log::Quiet; c.width = sw; c.height = sh; c.normalMap = n; Image im; unsigned w = unset, h = unset;
			bool r = loadAndProcessImage(im, c, fn, w, h, level); unsigned W = getDimension(wh.first, wh.first, wh.second, sw), H = getDimension(wh.second, wh.first, wh.second, sh);
			CHECK(r && w == W && h == H && im.width() == std::max(W >> level, 1u) && im.height() == std::max(H >> level, 1u), "an image of %u x %u with sizes %d, %d at level %d gives %u x %u, image %u x %u", wh.first, wh.second, sw, sh, level, w, h, im.width(), im.height());
			unsigned w2 = 10, h2 = 6; Image b; CHECK(loadAndProcessImage(b, c, fn, w2, h2, level) && w2 == 10 && h2 == 6 && b.width() == std::max(10u >> level, 1u) && b.height() == std::max(6u >> level, 1u), "a further image of a 10 x 6 texture at level %d is %u x %u", level, b.width(), b.height());
		}
	}
	unlink(fn.c_str());
}
int main(int argc, char** argv)
{
	rng.seed(argc > 1 ? atoi(argv[1]) : 1); sizes(); line(); images();
	printf("CASES %ld sizes, command lines and images\n", cases); return fails != 0;
}
