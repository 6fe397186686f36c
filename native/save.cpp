// Bounded replay for the container writers: independent assembly of the expected files, and fault injection.
#include <cuttlefish/Texture.h>
#include <cuttlefish/Image.h>
#include <cuttlefish/Color.h>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <sstream>
#include <string>
#include <vector>
#include <random>
using namespace cuttlefish;
typedef Texture::Dimension Dim; typedef Texture::CubeFace Face; typedef Texture::Format F; typedef Texture::Type Ty; typedef Texture::Alpha Al; typedef Texture::SaveResult SR;
static std::mt19937 rng(1);
static long cases = 0; static int fails = 0;
#define FAIL(...) do { if (fails++ < 12) { printf("FAIL "); printf(__VA_ARGS__); printf("\n"); } } while (0)
#define CHECK(c, ...) do { ++cases; if (!(c)) FAIL(__VA_ARGS__); } while (0)
struct Entry { F f; const char* name; Ty t; const char* type; bool srgb; unsigned bytes; bool alpha; long dds; long gl[5]; long long pvr; unsigned pvrType; };
static const Entry entries[] = {
#include "gen_formats.inc"
};
struct Bytes
{
	std::string s; std::vector<std::pair<size_t, std::string>> names;
	void name(const std::string& n) { names.push_back(std::make_pair(s.size(), n)); }
	void u32(const char* n, uint32_t v) { name(n); for (int i = 0; i < 4; ++i) s += (char)(v >> 8*i); }
	void u64(const char* n, uint64_t v) { name(n); for (int i = 0; i < 8; ++i) s += (char)(v >> 8*i); }
	std::string at(size_t o) const { std::string r = "?"; for (auto& n : names) if (n.first <= o) r = n.second; return r; }
};
static void data(Bytes& b, const Texture& t, unsigned f, unsigned m, unsigned d)
{
	char n[64]; snprintf(n, 64, "data of face %u level %u slice %u", f, m, d); b.name(n);
	b.s.append((const char*)t.data((Face)f, m, d), t.dataSize((Face)f, m, d));
}
static uint32_t cc(const char* c) { return (uint32_t)(unsigned char)c[0] | (uint32_t)(unsigned char)c[1] << 8 | (uint32_t)(unsigned char)c[2] << 16 | (uint32_t)(unsigned char)c[3] << 24; }
struct Shape { Dim d; unsigned w, h, z, m; };
static unsigned lv(unsigned v, unsigned m) { return std::max(1u, v >> m); }
static Bytes expectDds(const Texture& t, const Shape& s, const Entry& e, Al al)
{
	Bytes b; bool d3 = s.d == Dim::Dim3D, cube = s.d == Dim::Cube, arr = !d3 && s.z > 0; unsigned L = t.mipLevelCount();
	b.u32("magic", 0x20534444); b.u32("size", 124); b.u32("flags", 0x2100F | (d3 ? 0x800000 : 0)); b.u32("height", s.h); b.u32("width", s.w); b.u32("pitch", s.w*e.bytes); b.u32("depth", d3 ? s.z : 0); b.u32("mip count", L);
	for (int i = 0; i < 11; ++i) b.u32("reserved", 0);
	b.u32("pf size", 32); b.u32("pf flags", 4); b.u32("fourcc", cc("DX10")); for (int i = 0; i < 5; ++i) b.u32("pf masks", 0);
	b.u32("caps", 0x1000 | (L > 1 ? 0x400000 : 0) | (L > 1 || d3 || cube || arr ? 8 : 0)); b.u32("caps2", cube ? 0xFE00 : d3 ? 0x200000 : 0); b.u32("caps3", 0); b.u32("caps4", 0); b.u32("reserved2", 0);
	b.u32("dxgi format", e.dds); b.u32("resource dimension", s.d == Dim::Dim1D ? 2 : d3 ? 4 : 3); b.u32("misc flag", cube ? 4 : 0); b.u32("array size", arr ? s.z : 1);
	b.u32("alpha mode", !e.alpha || al == Al::None ? 3 : al == Al::Standard ? 1 : al == Al::PreMultiplied ? 2 : 4);
	for (unsigned el = 0; el < (arr ? s.z : 1); ++el) for (unsigned f = 0; f < (cube ? 6 : 1); ++f) for (unsigned m = 0; m < L; ++m) for (unsigned v = 0; v < (d3 ? lv(s.z, m) : 1); ++v) data(b, t, f, m, d3 ? v : el);
	return b;
}
static Bytes expectKtx(const Texture& t, const Shape& s, const Entry& e, Al)
{
	Bytes b; bool d3 = s.d == Dim::Dim3D, cube = s.d == Dim::Cube, arr = !d3 && s.z > 0; unsigned L = t.mipLevelCount();
	b.name("identifier"); b.s += std::string("\xABKTX 11\xBB\r\n\x1A\n", 12); b.u32("endianness", 0x04030201);
	b.u32("glType", e.gl[0]); b.u32("glTypeSize", e.gl[1]); b.u32("glFormat", e.gl[2]); b.u32("glInternalFormat", e.gl[3]); b.u32("glBaseInternalFormat", e.gl[4]);
	b.u32("width", s.w); b.u32("height", s.d == Dim::Dim1D ? 0 : s.h); b.u32("depth", d3 ? s.z : 0); b.u32("elements", arr ? s.z : 0); b.u32("faces", cube ? 6 : 1); b.u32("levels", L); b.u32("key/value bytes", 0);
	for (unsigned m = 0; m < L; ++m)
	{
		unsigned row = lv(s.w, m)*e.bytes, pad = (4 - row % 4) % 4, h = lv(s.h, m), D = d3 ? lv(s.z, m) : arr ? s.z : 1;
		b.u32("image size", (row + pad)*h*D*(arr && cube ? 6 : 1));
		for (unsigned d = 0; d < D; ++d) for (unsigned f = 0; f < (cube ? 6 : 1); ++f)
		{
			const char* p = (const char*)t.data((Face)f, m, d); char n[64]; snprintf(n, 64, "rows of face %u level %u slice %u", f, m, d); b.name(n);
			for (unsigned y = 0; y < h; ++y) { b.s.append(p + (size_t)y*row, row); b.s.append(pad, '\0'); }
		}
	}
	return b;
}
static Bytes expectPvr(const Texture& t, const Shape& s, const Entry& e, Al al)
{
	Bytes b; bool d3 = s.d == Dim::Dim3D, cube = s.d == Dim::Cube, arr = !d3 && s.z > 0; unsigned L = t.mipLevelCount();
	b.u32("version", cc("PVR\x03")); b.u32("flags", al == Al::PreMultiplied ? 2 : 0); b.u64("pixel format", e.pvr); b.u32("colour space", t.colorSpace() == ColorSpace::sRGB); b.u32("channel type", e.pvrType);
	b.u32("height", s.h); b.u32("width", s.w); b.u32("depth", d3 ? s.z : 1); b.u32("surfaces", arr ? s.z : 1); b.u32("faces", cube ? 6 : 1); b.u32("levels", L); b.u32("metadata size", (arr ? 16 : 0) + (s.d == Dim::Dim1D ? 16 : 0));
	if (arr) { b.u32("metadata", cc("CTFS")); b.u32("metadata", cc("ARRY")); b.u32("metadata", 4); b.u32("metadata", 0); }
	if (s.d == Dim::Dim1D) { b.u32("metadata", cc("CTFS")); b.u32("metadata", cc("DIM1")); b.u32("metadata", 4); b.u32("metadata", 0); }
	for (unsigned m = 0; m < L; ++m) for (unsigned d = 0; d < (d3 ? lv(s.z, m) : arr ? s.z : 1); ++d) for (unsigned f = 0; f < (cube ? 6 : 1); ++f) data(b, t, f, m, d);
	return b;
}
static const char* dn(Dim d) { static const char* n[] = {"1D", "2D", "3D", "Cube"}; return n[(int)d]; }
static std::string desc(const Shape& s, const Entry& e) { char b[160]; snprintf(b, 160, "%s %ux%ux%u levels %u %s %s%s", dn(s.d), s.w, s.h, s.z, s.m, e.name, e.type, e.srgb ? " sRGB" : ""); return b; }
static bool make(Texture& t, const Shape& s, const Entry& e, Al al, bool convert = true)
{
	if (!t.initialize(s.d, s.w, s.h, s.z, s.m, e.srgb ? ColorSpace::sRGB : ColorSpace::Linear)) return false;
	for (unsigned m = 0; m < t.mipLevelCount(); ++m) for (unsigned d = 0; d < t.depth(m); ++d) for (unsigned f = 0; f < t.faceCount(); ++f)
	{
		Image im(Image::Format::RGBAF, t.width(m), t.height(m), e.srgb ? ColorSpace::sRGB : ColorSpace::Linear);
		for (unsigned y = 0; y < im.height(); ++y) for (unsigned x = 0; x < im.width(); ++x) { ColorRGBAd c = {(rng() % 255 + 1)/256.0, (rng() % 255 + 1)/256.0, (rng() % 255 + 1)/256.0, (rng() % 255 + 1)/256.0}; if (e.t == Ty::UInt || e.t == Ty::Int) { c.r *= 100; c.g *= 100; c.b *= 100; c.a *= 100; } im.setPixel(x, y, c); }
		if (!t.setImage(im, (Face)f, m, d)) return false;
	}
	return !convert || t.convert(e.f, e.t, Texture::Quality::Lowest, al);
}
static const Shape shapes[] = {{Dim::Dim1D, 5, 1, 0, 1}, {Dim::Dim1D, 7, 1, 3, 9}, {Dim::Dim1D, 6, 2, 0, 2}, {Dim::Dim2D, 1, 1, 0, 1}, {Dim::Dim2D, 5, 3, 0, 1}, {Dim::Dim2D, 6, 7, 0, 9}, {Dim::Dim2D, 4, 4, 1, 2}, {Dim::Dim2D, 3, 5, 4, 9}, {Dim::Dim3D, 5, 3, 4, 1},
	{Dim::Dim3D, 6, 3, 7, 9}, {Dim::Dim3D, 2, 2, 9, 9}, {Dim::Dim3D, 3, 1, 1, 1}, {Dim::Cube, 5, 5, 0, 1}, {Dim::Cube, 7, 7, 0, 9}, {Dim::Cube, 3, 3, 1, 1}, {Dim::Cube, 5, 5, 3, 9}, {Dim::Cube, 2, 2, 2, 2},
	{Dim::Cube, 3, 3, 2, 1}, {Dim::Dim1D, 5, 1, 3, 1}, {Dim::Dim2D, 3, 2, 3, 1}, {Dim::Dim2D, 70, 2, 0, 1}, {Dim::Dim1D, 33, 1, 2, 2}};
static const Texture::FileType kinds[] = {Texture::FileType::DDS, Texture::FileType::KTX, Texture::FileType::PVR};
static const char* kn[] = {"DDS", "KTX", "PVR"};
static bool has(int k, const Entry& e) { return k == 0 ? e.dds > 0 : k == 1 ? e.gl[0] > 0 : e.pvr >= 0; }
static Bytes expected(int k, const Texture& t, const Shape& s, const Entry& e, Al al) { return k == 0 ? expectDds(t, s, e, al) : k == 1 ? expectKtx(t, s, e, al) : expectPvr(t, s, e, al); }

static void contents(int k)
{
	int n = 0;
	for (auto& e : entries) for (auto& s : shapes)
	{
		if (!has(k, e)) continue;
		++n; Al al = (Al)((n + n/4 + n/16) % 4);
		Texture t; 
		if (!make(t, s, e, al)) { FAIL("cannot make %s", desc(s, e).c_str()); continue; }
		std::ostringstream os; auto r = t.save(os, kinds[k]);
		if (r != SR::Success) { CHECK(false, "%s %s: result %d", kn[k], desc(s, e).c_str(), (int)r); continue; }
		Bytes b = expected(k, t, s, e, al); std::string got = os.str();
		size_t i = 0; while (i < got.size() && i < b.s.size() && got[i] == b.s[i]) ++i;
		CHECK(got == b.s, "%s %s alpha %d: file of %zu bytes (expected %zu) differs at %zu: %s", kn[k], desc(s, e).c_str(), (int)al, got.size(), b.s.size(), i, i < b.s.size() ? b.at(i).c_str() : "end of the file");
	}
}
struct Limited : std::streambuf
{
	size_t left; std::string got; bool unit;
	Limited(size_t n, bool u) : left(n), unit(u) {}
	int overflow(int c) override { if (!left) return EOF; --left; got += (char)c; return c == EOF ? 0 : c; }
	std::streamsize xsputn(const char* p, std::streamsize n) override { if ((size_t)n > left) { if (unit) return 0; got.append(p, left); n = left; left = 0; return n; } got.append(p, n); left -= n; return n; }
	int sync() override { return 0; }
};
static void faults()
{
	int n = 0;
	for (int k = 0; k < 3; ++k) for (auto& e : entries)
	{
		if (e.srgb) continue;
		if (!has(k, e)) 
		{
			Texture t; make(t, shapes[4], e, Al::Standard); std::ostringstream os; auto r = t.save(os, kinds[k]);
			CHECK(r == SR::Unsupported && os.str().empty(), "%s %s %s: unsupported, result %d, %zu bytes written", kn[k], e.name, e.type, (int)r, os.str().size());
			continue;
		}
		if (n++ % 3 && e.f != F::R8 && e.f != F::R8G8B8A8) continue;
		for (auto& s : shapes)
		{
			Texture t; make(t, s, e, Al::Standard); std::ostringstream os; if (t.save(os, kinds[k]) != SR::Success) { CHECK(false, "%s %s: not saved", kn[k], desc(s, e).c_str()); continue; }
			size_t size = os.str().size();
			for (size_t i = 0; i <= size + 1; ++i)
			{
				if (size > 700 && i > 300 && i + 40 < size && rng() % 37) continue;
				for (int u = 0; u < 2; ++u)
				{
					Limited l(i, u); std::ostream o(&l); auto r = t.save(o, kinds[k]);
					CHECK((r == SR::Success) == (i >= size) && (r == SR::Success || r == SR::WriteError), "%s %s: destination with room for %zu of %zu bytes: result %d", kn[k], desc(s, e).c_str(), i, size, (int)r);
					CHECK(i < size || l.got == os.str(), "%s %s: different bytes", kn[k], desc(s, e).c_str());
				}
			}
			Limited l(size, false); std::ostream o(&l); o.setstate(std::ios::badbit); CHECK(t.save(o, kinds[k]) == SR::WriteError, "%s: stream that has failed before", kn[k]);
			std::ofstream* none = nullptr; (void)none;
		}
	}
	Texture t; make(t, shapes[5], entries[40 % (sizeof(entries)/sizeof(entries[0]))], Al::Standard, false);
	for (int k = 0; k < 3; ++k) { std::ostringstream os; CHECK(t.save(os, kinds[k]) == SR::Invalid && os.str().empty(), "%s: unconverted texture", kn[k]); Texture u; CHECK(u.save(os, kinds[k]) == SR::Invalid && os.str().empty(), "%s: invalid texture", kn[k]); }
	const Entry* rgba = nullptr; for (auto& e : entries) if (e.f == F::R8G8B8A8 && e.t == Ty::UNorm && !e.srgb) rgba = &e;
	make(t, shapes[5], *rgba, Al::Standard);
	{ std::ostringstream os; CHECK(t.save(os, Texture::FileType::Auto) == SR::UnknownFormat && os.str().empty(), "automatic type on a stream"); }
	for (int k = 0; k < 3; ++k)
	{
		CHECK(t.save("/dev/full", kinds[k]) == SR::WriteError, "%s: full device reported as success", kn[k]);
		Texture big; make(big, Shape{Dim::Dim2D, 67, 61, 0, 9}, *rgba, Al::Standard); CHECK(big.save("/dev/full", kinds[k]) == SR::WriteError, "%s: full device reported as success", kn[k]);
		std::string fn = std::string("saved.") + (k == 0 ? "dds" : k == 1 ? "ktx" : "pvr");
		CHECK(t.save(("no-such-directory/" + fn).c_str()) == SR::WriteError, "%s: directory that does not exist", kn[k]);
		CHECK(t.save(fn.c_str()) == SR::Success, "%s: file", kn[k]);
		std::ostringstream os; t.save(os, kinds[k]); std::string got; if (FILE* f = fopen(fn.c_str(), "rb")) { char buf[4096]; size_t c; while ((c = fread(buf, 1, sizeof buf, f)) > 0) got.append(buf, c); fclose(f); remove(fn.c_str()); }
		CHECK(got == os.str(), "%s: file and stream differ", kn[k]);
	}
	CHECK(t.save((const char*)nullptr) == SR::Invalid, "no name");
	CHECK(t.save("saved.txt") == SR::UnknownFormat, "unknown extension"); remove("saved.txt");
}
static void tables()
{
	for (unsigned f = 0; f < 80; ++f) for (unsigned t = 0; t < 9; ++t)
	{
		const Entry* e = nullptr; for (auto& x : entries) if ((unsigned)x.f == f && (unsigned)x.t == t) e = &x;
		bool v = e != nullptr;
		CHECK(Texture::isFormatValid((F)f, (Ty)t) == v, "isFormatValid(%u, %u)", f, t);
		for (int k = 0; k < 3; ++k) CHECK(Texture::isFormatValid((F)f, (Ty)t, kinds[k]) == (v && has(k, *e)), "isFormatValid(%u, %u, %s)", f, t, kn[k]);
		if (v && !e->srgb) { Texture tx; CHECK(make(tx, shapes[5], *e, Al::Standard) && tx.converted() && tx.format() == (F)f && tx.type() == (Ty)t, "conversion to %s %s", e->name, e->type);
			for (int k = 0; k < 3; ++k) { std::ostringstream os; CHECK((tx.save(os, kinds[k]) == SR::Success) == Texture::isFormatValid((F)f, (Ty)t, kinds[k]), "saving %s %s as %s", e->name, e->type, kn[k]); } }
		if (!v)
		{
			Texture tx; make(tx, shapes[4], entries[0], Al::Standard, false); CHECK(!tx.convert((F)f, (Ty)t) && !tx.converted() && tx.imagesComplete() && tx.format() == F::Unknown, "invalid pair %u %u converted", f, t);
		}
	}
	auto kept = [](Texture& tx, F f, Ty t, const char* what)      // a conversion that is rejected changes nothing
	{
		F f0 = tx.format(); Ty t0 = tx.type(); Al a0 = tx.alphaType(); auto m0 = tx.colorMask(); bool c0 = tx.converted(), i0 = tx.imagesComplete();
		std::string d0; for (unsigned m = 0; c0 && m < tx.mipLevelCount(); ++m) d0.append((const char*)tx.data(m), tx.dataSize(m));
		Texture::ColorMask cm; cm.r = cm.b = false;
		CHECK(!tx.convert(f, t, Texture::Quality::Low, Al::PreMultiplied, cm), "%s: accepted", what);
		std::string d1; for (unsigned m = 0; tx.converted() && m < tx.mipLevelCount(); ++m) d1.append((const char*)tx.data(m), tx.dataSize(m));
		auto m1 = tx.colorMask();
		CHECK(tx.format() == f0 && tx.type() == t0 && tx.alphaType() == a0 && m1.r == m0.r && m1.g == m0.g && m1.b == m0.b && m1.a == m0.a && tx.converted() == c0 && tx.imagesComplete() == i0 && d0 == d1, "%s (%u, %u): a rejected conversion changed the texture", what, (unsigned)f, (unsigned)t);
	};
	for (int srgb = 0; srgb < 2; ++srgb) for (int again = 0; again < 2; ++again)
	{
		const Entry* good = nullptr; for (auto& x : entries) if (x.f == F::R8G8B8A8 && x.t == Ty::UNorm && x.srgb == (srgb != 0)) good = &x;
		Texture tx; make(tx, shapes[4], *good, Al::Standard, again != 0);
		if (again) for (unsigned m = 0; m < tx.mipLevelCount(); ++m) { Image im(Image::Format::RGBAF, tx.width(m), tx.height(m), srgb ? ColorSpace::sRGB : ColorSpace::Linear); tx.setImage(std::move(im), m); }
		kept(tx, F::R8G8B8A8, Ty::Float, "type that the format does not have"); kept(tx, F::Unknown, Ty::UNorm, "no format"); kept(tx, (F)200, (Ty)77, "no enumerators");
		if (srgb) { kept(tx, F::R32G32B32A32, Ty::Float, "linear format for an sRGB texture"); kept(tx, F::R16, Ty::UInt, "linear format for an sRGB texture"); }
	}
	for (auto& e : entries)     // sRGB textures: only where a native sRGB variant exists
	{
		bool native = false; for (auto& x : entries) native |= x.f == e.f && x.t == e.t && x.srgb;
		Texture tx; Shape s = shapes[4]; Entry q = e; q.srgb = true; bool ok = make(tx, s, q, Al::Standard);
		CHECK(ok == native && tx.converted() == native, "sRGB conversion to %s %s", e.name, e.type);
		if (ok) for (int k = 0; k < 3; ++k) { std::ostringstream os; CHECK((tx.save(os, kinds[k]) == SR::Success) == Texture::isFormatValid(e.f, e.t, kinds[k]), "saving sRGB %s %s as %s", e.name, e.type, kn[k]); }
	}
}
int main(int argc, char** argv)
{
	std::string s = argc > 1 ? argv[1] : ""; rng.seed(argc > 2 ? atoi(argv[2]) : 1);
	if (s == "dds") contents(0); if (s == "ktx") contents(1); if (s == "pvr") contents(2); if (s == "faults") faults(); if (s == "tables") tables();
	printf("CASES %ld %s checks: every uncompressed format, type and colour space, 22 shapes of up to 7 levels; fault injection at every byte\n", cases, s.c_str());
	return fails ? 1 : 0;
}
