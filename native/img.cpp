// Image operations through the public API against an independent reference (per pixel, every format).
#include <cuttlefish/Image.h>
#include <cuttlefish/Color.h>
#include <cuttlefish/Texture.h>
#include <FreeImage.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <functional>
#include <limits>
#include <random>
#include <string>
#include <vector>
using namespace cuttlefish;
typedef Image::Format F;
static const F FMT[] = {F::Gray8, F::Gray16, F::RGB5, F::RGB565, F::RGB8, F::RGB16, F::RGBF, F::RGBA8, F::RGBA16, F::RGBAF, F::Int16, F::UInt16, F::Int32, F::UInt32, F::Float, F::Double, F::Complex};
static const char* NAME[] = {"Gray8", "Gray16", "RGB5", "RGB565", "RGB8", "RGB16", "RGBF", "RGBA8", "RGBA16", "RGBAF", "Int16", "UInt16", "Int32", "UInt32", "Float", "Double", "Complex"};
static const int N = 17;
static long cases = 0; static int fails = 0;
static const char* nm(F f) { for (int i = 0; i < N; ++i) if (FMT[i] == f) return NAME[i]; return "?"; }
#define FAIL(...) do { if (fails++ < 40) { std::printf("FAIL "); std::printf(__VA_ARGS__); std::printf("\n"); } } while (0)
static double quant(F f, int c)
{
	switch (f)
	{
		case F::Gray8: case F::RGB8: case F::RGBA8: return 255;
		case F::Gray16: case F::RGB16: case F::RGBA16: return 65535;
		case F::RGB5: return 31;
		case F::RGB565: return c == 1 ? 63 : 31;
		default: return 0;
	}
}
static bool isGray(F f) { return f == F::Gray8 || f == F::Gray16 || f == F::Float || f == F::Double; }
static bool isInt(F f) { return f == F::Int16 || f == F::UInt16 || f == F::Int32 || f == F::UInt32; }
static bool isFlt(F f) { return f == F::RGBF || f == F::RGBAF || f == F::Float; }
static bool hasAlpha(F f) { return f == F::RGBA8 || f == F::RGBA16 || f == F::RGBAF; }
static double s2l(double c) { return c <= 0.04045 ? c/12.92 : std::pow((c + 0.055)/1.055, 2.4); }
static double l2s(double c) { return c <= 0.0031308 ? c*12.92 : 1.055*std::pow(c, 1.0/2.4) - 0.055; }
static double lum(double r, double g, double b) { return 0.2126*r + 0.7152*g + 0.0722*b; }
static double q1(F f, int c, double v)
{
	double q = quant(f, c);
	if (q) { v = v < 0 ? 0 : v > 1 ? 1 : v; return std::round(v*q)/q; }
	if (isInt(f))
	{
		double lo = 0, hi = 65535;
		if (f == F::Int16) { lo = -32768; hi = 32767; }
		if (f == F::Int32) { lo = -2147483648.0; hi = 2147483647.0; }
		if (f == F::UInt32) hi = 4294967295.0;
		v = v < lo ? lo : v > hi ? hi : v;
		return std::trunc(v);
	}
	if (isFlt(f)) return (float)v;
	return v;
}
// what the format holds of a colour, and reads back
static ColorRGBAd held(F f, ColorRGBAd c, ColorSpace cs, bool gray)
{
	if (gray && isGray(f))
		c.r = cs == ColorSpace::sRGB ? l2s(lum(s2l(c.r), s2l(c.g), s2l(c.b))) : lum(c.r, c.g, c.b);
	ColorRGBAd o;
	o.r = q1(f, 0, c.r); o.g = q1(f, 1, c.g); o.b = q1(f, 2, c.b); o.a = hasAlpha(f) ? q1(f, 3, c.a) : 1;
	if (isGray(f) || isInt(f)) o.g = o.b = o.r;
	if (f == F::Complex) { o.b = 0; }
	return o;
}
static bool near1(F f, int ch, double a, double b, double slack)
{
	if (a == b) return true;
	double q = quant(f, ch);
	double tol = (q ? slack/q : isInt(f) ? slack : 0) + 1e-9 + 1e-6*std::fabs(a);
	return std::fabs(a - b) <= tol;
}
static bool near(F f, const ColorRGBAd& a, const ColorRGBAd& b, double slack = 0)
{ return near1(f, 0, a.r, b.r, slack) && near1(f, 1, a.g, b.g, slack) && near1(f, 2, a.b, b.b, slack) && near1(f, 3, a.a, b.a, slack); }
static ColorRGBAd get(const Image& i, unsigned x, unsigned y) { ColorRGBAd c = {-9, -9, -9, -9}; if (!i.getPixel(c, x, y)) FAIL("getPixel(%u,%u) rejected in %ux%u %s", x, y, i.width(), i.height(), nm(i.format())); return c; }
static std::mt19937 rng;
static double rnd() { return std::uniform_real_distribution<double>(0, 1)(rng); }
static ColorRGBAd rcol(F f)
{
	ColorRGBAd c = {rnd(), rnd(), rnd(), rnd()};
	if (isInt(f)) { double s = f == F::Int16 ? 32767 : f == F::UInt16 ? 65535 : 2e9; c.r = std::floor(c.r*s); c.g = std::floor(c.g*s); c.b = std::floor(c.b*s); if (f == F::Int16 || f == F::Int32) c.r -= std::floor(s/2); }
	else if (!quant(f, 0) && rng()%4 == 0) { c.r = c.r*6 - 2; c.g *= 3; }
	return c;
}
static void fill(Image& im) { for (unsigned y = 0; y < im.height(); ++y) for (unsigned x = 0; x < im.width(); ++x) im.setPixel(x, y, rcol(im.format()), false); }
static unsigned bytesOf(F f) { switch (f) { case F::Gray8: return 1; case F::Gray16: case F::RGB5: case F::RGB565: case F::Int16: case F::UInt16: return 2; case F::RGB8: return 3; case F::RGB16: return 6; case F::RGBF: return 12; case F::RGBA8: case F::Int32: case F::UInt32: case F::Float: return 4; case F::RGBA16: case F::Double: return 8; default: return 16; } }
typedef std::vector<uint8_t> Bytes;
static Bytes raw(const Image& i) { Bytes b; for (unsigned y = 0; y < i.height(); ++y) { auto p = (const uint8_t*)i.scanline(y); b.insert(b.end(), p, p + bytesOf(i.format())*i.width()); } return b; }
static const unsigned SH[][2] = {{1, 1}, {1, 5}, {5, 1}, {7, 3}, {4, 4}, {33, 2}};

static void pixels()
{
	std::vector<double> edge = {0, 1, 0.5, -0.25, 1.5, 1.0/3, 254.5/255, 0.49999, 300, -300, 40000, 65535, 65536.5, 70000, -32768, -40000, 32767, 32768, 2147483647.0, 2147483648.0, -2147483648.0, -3e9, 4294967295.0, 5e9, 2.75, -2.75, 1e-12};
	for (int i = 0; i < N; ++i) for (int s = 0; s < 2; ++s) for (int g = 0; g < 2; ++g)
	{
		F f = FMT[i]; ColorSpace cs = s ? ColorSpace::sRGB : ColorSpace::Linear;
		Image im;
		if (!im.initialize(f, 5, 4, cs)) { FAIL("initialize %s", nm(f)); continue; }
		if (im.format() != f || im.colorSpace() != cs || im.width() != 5 || im.height() != 4) FAIL("observers after initialize %s", nm(f));
		fill(im);
		for (int k = 0; k < 400; ++k)
		{
			unsigned x = rng()%5, y = rng()%4;
			ColorRGBAd c = rcol(f);
			if (k%3 == 0) { double* p = &c.r; p[rng()%4] = edge[rng()%edge.size()]; }
			if (k < (int)edge.size()) c.r = c.g = c.b = c.a = edge[k];
			if (std::fabs(c.r) > 1e6 || std::fabs(c.g) > 1e6 || std::fabs(c.b) > 1e6) if (isGray(f)) continue;
			Bytes before = raw(im);
			if (!im.setPixel(x, y, c, g)) FAIL("setPixel rejected %s", nm(f));
			Bytes after = raw(im); unsigned b = bytesOf(f), at = (y*5 + x)*b;
			for (unsigned j = 0; j < before.size(); ++j) if ((j < at || j >= at + b) && before[j] != after[j]) { FAIL("setPixel(%u,%u) of %s changes another pixel (byte %u)", x, y, nm(f), j); break; }
			ColorRGBAd o = get(im, x, y), w = held(f, c, cs, g);
			++cases;
			if (!near(f, w, o, 1e-3)) FAIL("%s %s%s: stored (%g %g %g %g), read (%.9g %.9g %.9g %.9g), expected (%.9g %.9g %.9g %.9g)", nm(f), s ? "sRGB" : "linear", g ? " gray" : "", c.r, c.g, c.b, c.a, o.r, o.g, o.b, o.a, w.r, w.g, w.b, w.a);
		}
		ColorRGBAd c = {0.5, 0.5, 0.5, 0.5}; Bytes before = raw(im);
		unsigned bad[][2] = {{5, 0}, {0, 4}, {5, 4}, {~0u, 0}, {0, ~0u}, {~0u, ~0u}};
		for (auto& q : bad) { ++cases; if (im.setPixel(q[0], q[1], c, g) || im.getPixel(c, q[0], q[1])) FAIL("%s: pixel %u,%u of a 5x4 image accepted", nm(f), q[0], q[1]); }
		if (im.scanline(4) || im.scanline(~0u)) FAIL("scanline out of range");
		if (raw(im) != before) FAIL("%s: a rejected setPixel changes the image", nm(f));
	}
	Image none; ColorRGBAd c = {0, 0, 0, 0};
	if (none.getPixel(c, 0, 0) || none.setPixel(0, 0, c) || none.scanline(0)) FAIL("an invalid image accepts pixels");
}

typedef std::function<ColorRGBAd(const ColorRGBAd&)> Map;
static void inplace(const char* what, F f, ColorSpace cs, std::function<bool(Image&)> op, Map map, ColorSpace csAfter, std::function<void(unsigned&, unsigned&, unsigned, unsigned)> from = nullptr)
{
	for (auto& sh : SH)
	{
		Image im; im.initialize(f, sh[0], sh[1], cs); fill(im);
		Image src(im); ++cases;
		if (!op(im)) { FAIL("%s fails for %s", what, nm(f)); return; }
		if (im.width() != sh[0] || im.height() != sh[1] || im.format() != f || im.colorSpace() != csAfter) { FAIL("%s: size, format or colour space of %s", what, nm(f)); return; }
		for (unsigned y = 0; y < sh[1]; ++y) for (unsigned x = 0; x < sh[0]; ++x)
		{
			unsigned sx = x, sy = y; if (from) from(sx, sy, sh[0], sh[1]);
			ColorRGBAd s = get(src, sx, sy), w = held(f, map(s), cs, false), o = get(im, x, y);
			if (!near(f, w, o, 1.001)) { FAIL("%s of %s %ux%u at (%u,%u): from (%g %g %g %g) got (%.9g %.9g %.9g %.9g) expected (%.9g %.9g %.9g %.9g)", what, nm(f), sh[0], sh[1], x, y, s.r, s.g, s.b, s.a, o.r, o.g, o.b, o.a, w.r, w.g, w.b, w.a); return; }
		}
	}
}
static void ops()
{
	auto id = [](const ColorRGBAd& c) { return c; };
	for (int i = 0; i < N; ++i) for (int s = 0; s < 2; ++s)
	{
		F f = FMT[i]; ColorSpace cs = s ? ColorSpace::sRGB : ColorSpace::Linear;
		inplace("flipHorizontal", f, cs, [](Image& m) { return m.flipHorizontal(); }, id, cs, [](unsigned& x, unsigned&, unsigned w, unsigned) { x = w - 1 - x; });
		inplace("flipVertical", f, cs, [](Image& m) { return m.flipVertical(); }, id, cs, [](unsigned&, unsigned& y, unsigned, unsigned h) { y = h - 1 - y; });
		inplace("preMultiplyAlpha", f, cs, [](Image& m) { return m.preMultiplyAlpha(); }, [&](const ColorRGBAd& c) {
			if (!hasAlpha(f)) return c; ColorRGBAd o = c;
			for (int k = 0; k < 3; ++k) { double* p = &o.r + k; *p = s ? l2s(s2l(*p)*c.a) : *p*c.a; } return o; }, cs);
		inplace("grayscale", f, cs, [](Image& m) { return m.grayscale(); }, [&](const ColorRGBAd& c) { ColorRGBAd o = c;
			o.r = o.g = o.b = s ? l2s(lum(s2l(c.r), s2l(c.g), s2l(c.b))) : lum(c.r, c.g, c.b); return o; }, cs);
		for (int t = 0; t < 2; ++t)
			inplace("changeColorSpace", f, cs, [&](Image& m) { return m.changeColorSpace(t ? ColorSpace::sRGB : ColorSpace::Linear); }, [&](const ColorRGBAd& c) { ColorRGBAd o = c;
				if (s != t) for (int k = 0; k < 3; ++k) { double* p = &o.r + k; *p = t ? l2s(*p) : s2l(*p); } return o; }, t ? ColorSpace::sRGB : ColorSpace::Linear);
		for (int k = 0; k < 12; ++k)
		{
			unsigned ch[4]; for (auto& c : ch) c = rng()%5;
			inplace("swizzle", f, cs, [&](Image& m) { return m.swizzle((Image::Channel)ch[0], (Image::Channel)ch[1], (Image::Channel)ch[2], (Image::Channel)ch[3]); }, [&](const ColorRGBAd& c) { ColorRGBAd o;
				for (int j = 0; j < 4; ++j) (&o.r)[j] = ch[j] < 4 ? (&c.r)[ch[j]] : j == 3; return o; }, cs);
		}
		for (auto& sh : SH) for (int a = 0; a < 6; ++a)
		{
			Image im; im.initialize(f, sh[0], sh[1], cs); fill(im); Bytes keep = raw(im);
			Image r = im.rotate((Image::RotateAngle)a); ++cases;
			if (raw(im) != keep) FAIL("rotate changes its source (%s)", nm(f));
			// quarter turns clockwise
			int q = a == (int)Image::RotateAngle::CW90 || a == (int)Image::RotateAngle::CCW270 ? 1 : a == (int)Image::RotateAngle::CW180 || a == (int)Image::RotateAngle::CCW180 ? 2 : 3;
			unsigned W = q == 2 ? sh[0] : sh[1], H = q == 2 ? sh[1] : sh[0];
			if (!r.isValid() || r.width() != W || r.height() != H || r.format() != f || r.colorSpace() != cs) { FAIL("rotate %d of %s %ux%u: result %ux%u %s", a, nm(f), sh[0], sh[1], r.width(), r.height(), nm(r.format())); continue; }
			for (unsigned y = 0; y < H; ++y) for (unsigned x = 0; x < W; ++x)
			{
				unsigned sx, sy;
				if (q == 1) { sx = y; sy = sh[1] - 1 - x; } else if (q == 2) { sx = sh[0] - 1 - x; sy = sh[1] - 1 - y; } else { sx = sh[0] - 1 - y; sy = x; }
				if (!near(f, get(im, sx, sy), get(r, x, y), 0)) { FAIL("rotate %d of %s %ux%u at (%u,%u)", a, nm(f), sh[0], sh[1], x, y); y = H; break; }
			}
		}
		for (int o = 0; o < 8; ++o) for (F d : {F::RGBF, F::RGB8, F::RGBAF})
		{
			if (isInt(f)) continue;
			Image im; im.initialize(f, 5, 4, cs); fill(im); double h = 1.5; Image r = im.createNormalMap((Image::NormalOptions)o, h, d); ++cases;
			if (!r.isValid() || r.width() != 5 || r.height() != 4 || r.format() != d) { FAIL("createNormalMap of %s", nm(f)); continue; }
			bool keep = o & 1, wx = o & 2, wy = o & 4;
			for (int y = 0; y < 4; ++y) for (int x = 0; x < 5; ++x)
			{
				auto at = [&](int px, int py) { return get(im, px, 3 - py).r; };   // rows bottom-up
				int Y = 3 - y;
				int y0 = Y == 0 ? (wy ? 3 : 0) : Y - 1, y2 = Y == 3 ? (wy ? 0 : 3) : Y + 1; double dy = (at(x, y0) - at(x, y2))*h/(((Y == 0 || Y == 3) && !wy) ? 1 : 2);
				int x0 = x == 0 ? (wx ? 4 : 0) : x - 1, x2 = x == 4 ? (wx ? 0 : 4) : x + 1; double dx = (at(x0, Y) - at(x2, Y))*h/(((x == 0 || x == 4) && !wx) ? 1 : 2);
				double l = std::sqrt(dx*dx + dy*dy + 1); ColorRGBAd n = {dx/l, dy/l, 1/l, 1};
				if (!keep) { n.r = n.r*.5 + .5; n.g = n.g*.5 + .5; n.b = n.b*.5 + .5; }
				if (!near(d, held(d, n, cs, false), get(r, x, y), 1.001)) { FAIL("createNormalMap %d of %s to %s at (%d,%d)", o, nm(f), nm(d), x, y); x = 5; y = 4; }
			}
		}
	}
	Image none;
	if (none.flipHorizontal() || none.flipVertical() || none.preMultiplyAlpha() || none.grayscale() || none.changeColorSpace(ColorSpace::sRGB) || none.swizzle(Image::Channel::Red, Image::Channel::Red, Image::Channel::Red, Image::Channel::Red) || none.rotate(Image::RotateAngle::CW90).isValid() || none.convert(F::RGB8).isValid() || none.resize(2, 2, Image::ResizeFilter::Box).isValid() || none.createNormalMap().isValid() || none.isValid()) FAIL("an operation on an invalid image succeeds");
}
// where FreeImage's own conversion may stand in: it documents the same colours up to its own rounding
static bool libMay(F f, F d, bool s, bool gr)
{
	bool g = gr && isGray(d), lg = g && !s, flt = isFlt(f) || f == F::UInt16;
	if (f == F::UInt16 || d == F::UInt16 || d == F::Complex) return false;
	switch (d)
	{
		case F::Gray8: case F::Gray16: return lg || isGray(f);
		case F::Float: return (lg || isGray(f)) && !flt;
		case F::Double: return lg && !isGray(f) && !flt;
		case F::RGBF: return !flt && f != F::RGB5 && f != F::RGB565;
		case F::RGBAF: return !flt;
		default: return true;
	}
}
static double clamp1(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }
static bool roughly(ColorRGBAd a, ColorRGBAd b)
{ return std::fabs(clamp1(a.r) - clamp1(b.r)) < 0.04 && std::fabs(clamp1(a.g) - clamp1(b.g)) < 0.04 && std::fabs(clamp1(a.b) - clamp1(b.b)) < 0.04 && std::fabs(clamp1(a.a) - clamp1(b.a)) < 0.04; }
static void convert()
{
	for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int s = 0; s < 2; ++s) for (int g = 0; g < 2; ++g)
	{
		F f = FMT[i], d = FMT[j]; ColorSpace cs = s ? ColorSpace::sRGB : ColorSpace::Linear;
		Image im; im.initialize(f, 7, 3, cs); fill(im); Bytes keep = raw(im);
		Image r = im.convert(d, g); ++cases;
		if (raw(im) != keep || im.format() != f) FAIL("convert changes its source (%s)", nm(f));
		if (!r.isValid() || r.width() != 7 || r.height() != 3 || r.format() != d || r.colorSpace() != cs) { FAIL("convert %s to %s: result %ux%u %s", nm(f), nm(d), r.width(), r.height(), nm(r.format())); continue; }
		for (unsigned y = 0; y < 3; ++y) for (unsigned x = 0; x < 7; ++x)
		{
			ColorRGBAd c = get(im, x, y), w = held(d, c, cs, g && f != F::Complex), o = get(r, x, y);
			if (f == d) w = c;
			else if (libMay(f, d, s, g) && (isInt(d) || isInt(f) || f == F::Complex || roughly(w, o))) continue;
			if (!near(d, w, o, 1.001)) { FAIL("convert %s to %s %s%s at (%u,%u): from (%g %g %g %g) got (%.9g %.9g %.9g %.9g) expected (%.9g %.9g %.9g %.9g)", nm(f), nm(d), s ? "sRGB" : "linear", g ? " gray" : "", x, y, c.r, c.g, c.b, c.a, o.r, o.g, o.b, o.a, w.r, w.g, w.b, w.a); y = 3; break; }
		}
	}
}
static void resize()
{
	static const unsigned TO[][2] = {{1, 1}, {2, 3}, {7, 3}, {14, 6}, {3, 9}, {5, 1}};
	for (int i = 0; i < N; ++i) for (int s = 0; s < 2; ++s) for (int q = 0; q < 5; ++q) for (auto& to : TO)
	{
		F f = FMT[i]; ColorSpace cs = s ? ColorSpace::sRGB : ColorSpace::Linear;
		bool only = f == F::Int16 || f == F::Int32 || f == F::UInt32 || f == F::Double || f == F::Complex;
		if (only && q > 1 && !(to[0] == 7 && to[1] == 3)) continue;
		Image im; im.initialize(f, 7, 3, cs);
		ColorRGBAd c = rcol(f); for (unsigned y = 0; y < 3; ++y) for (unsigned x = 0; x < 7; ++x) im.setPixel(x, y, c, false);
		ColorRGBAd want = get(im, 0, 0);
		Image r = im.resize(to[0], to[1], (Image::ResizeFilter)q); ++cases;
		if (!r.isValid()) { FAIL("resize of %s with filter %d fails", nm(f), q); continue; }
		if (r.width() != to[0] || r.height() != to[1] || r.colorSpace() != cs) { FAIL("resize of %s to %ux%u gives %ux%u", nm(f), to[0], to[1], r.width(), r.height()); continue; }
		for (unsigned y = 0; y < to[1]; ++y) for (unsigned x = 0; x < to[0]; ++x)
		{
			ColorRGBAd o = get(r, x, y);
			double tol = s ? (f == F::RGB5 || f == F::RGB565 ? 3 : quant(f, 0) == 255 ? 14 : 600) : 1.5;
			if (isInt(f)) tol = s ? 1e10 : 300;
			if (s && (f == F::RGB5 || f == F::RGB565) && std::fabs(s2l(want.r) - s2l(o.r)) < 0.035 && std::fabs(s2l(want.g) - s2l(o.g)) < 0.035 && std::fabs(s2l(want.b) - s2l(o.b)) < 0.035) continue;
			if (!near(f, want, o, tol)) { FAIL("resize of a uniform %s %s image (%g %g %g %g) with filter %d to %ux%u gives (%g %g %g %g) %s", s ? "sRGB" : "linear", nm(f), want.r, want.g, want.b, want.a, q, to[0], to[1], o.r, o.g, o.b, o.a, nm(r.format())); y = to[1]; break; }
		}
	}
}
static void filters()
{
	static const unsigned TO[][2] = {{1, 1}, {2, 3}, {9, 4}, {18, 8}, {3, 9}, {5, 1}, {4, 2}, {9, 8}, {31, 3}};
	static const FREE_IMAGE_FILTER FL[] = {FILTER_BOX, FILTER_BILINEAR, FILTER_BICUBIC, FILTER_CATMULLROM, FILTER_BSPLINE};
	static const Image::ResizeFilter RF[] = {Image::ResizeFilter::Box, Image::ResizeFilter::Linear, Image::ResizeFilter::Cubic, Image::ResizeFilter::CatmullRom, Image::ResizeFilter::BSpline};
	for (int i = 0; i < N; ++i) for (int q = 0; q < 5; ++q) for (auto& to : TO)
	{
		F f = FMT[i]; bool own = f == F::Int16 || f == F::Int32 || f == F::UInt32 || f == F::Double || f == F::Complex;
		if (f == F::RGB5 || f == F::RGB565) continue;
		Image im; im.initialize(f, 9, 4, ColorSpace::Linear); fill(im); Bytes keep = raw(im);
		Image r = im.resize(to[0], to[1], RF[q]); ++cases;
		if (raw(im) != keep) FAIL("resize changes its source (%s)", nm(f));
		if (to[0] == 9 && to[1] == 4) { if (raw(r) != keep) FAIL("resize of %s to its own size", nm(f)); continue; }
		if (own)
		{
			if (q > 1) { if (r.isValid()) FAIL("resize of %s with filter %d", nm(f), q); continue; }
			if (!r.isValid() || r.format() != f || r.width() != to[0] || r.height() != to[1]) { FAIL("resize of %s", nm(f)); continue; }
			double sx = 9.0/to[0], sy = 4.0/to[1], wx = std::max(sx, 1.0), wy = std::max(sy, 1.0);
			for (unsigned y = 0; y < to[1]; ++y) for (unsigned x = 0; x < to[0]; ++x)
			{
				ColorRGBAd a = {0, 0, 0, 0}; double t = 0; bool tie = false;
				for (int j = 0; j < 4; ++j) for (int k = 0; k < 9; ++k)
				{
					double dx = std::fabs(k + 0.5 - (x + 0.5)*sx)/wx, dy = std::fabs(j + 0.5 - (y + 0.5)*sy)/wy;
					double w = q == 0 ? (dx <= 0.5 + 1e-12 && dy <= 0.5 + 1e-12) : std::max(1 - dx, 0.0)*std::max(1 - dy, 0.0);
					if (!q && (std::fabs(dx - 0.5) < 1e-9 || std::fabs(dy - 0.5) < 1e-9)) tie = true;
					if (w <= 0) continue;
					ColorRGBAd c = get(im, k, 3 - j); a.r += c.r*w; a.g += c.g*w; t += w;
				}
				if (tie) continue;      // a centre exactly on the window's edge belongs to either side
				ColorRGBAd o = get(r, x, to[1] - 1 - y); double R = a.r/t, G = a.g/t;
				double tol = (isInt(f) ? 1.001 : 0) + 1e-9 + 1e-9*std::fabs(R);
				if (std::fabs(o.r - R) > tol || (f == F::Complex && std::fabs(o.g - G) > 1e-9 + 1e-9*std::fabs(G))) { FAIL("resize of %s with filter %d to %ux%u at (%u,%u): %.9g instead of %.9g", nm(f), q, to[0], to[1], x, y, o.r, R); y = to[1]; break; }
			}
			continue;
		}
		FREE_IMAGE_TYPE ty = f == F::Gray16 || f == F::UInt16 ? FIT_UINT16 : f == F::RGB16 ? FIT_RGB16 : f == F::RGBA16 ? FIT_RGBA16 : f == F::RGBF ? FIT_RGBF : f == F::RGBAF ? FIT_RGBAF : f == F::Float ? FIT_FLOAT : FIT_BITMAP;
		FIBITMAP* b = FreeImage_AllocateT(ty, 9, 4, bytesOf(f)*8);
		for (unsigned y = 0; y < 4; ++y) std::memcpy(FreeImage_GetScanLine(b, 3 - y), im.scanline(y), bytesOf(f)*9);
		FIBITMAP* d = FreeImage_Rescale(b, to[0], to[1], FL[q]);
		bool ok = r.isValid() && r.format() == f && r.width() == to[0] && r.height() == to[1];
		for (unsigned y = 0; ok && d && y < to[1]; ++y) ok = !std::memcmp(FreeImage_GetScanLine(d, to[1] - 1 - y), r.scanline(y), bytesOf(f)*to[0]);
		if (d && !ok) FAIL("resize of %s with filter %d to %ux%u is not what that filter gives", nm(f), q, to[0], to[1]);
		FreeImage_Unload(b); if (d) FreeImage_Unload(d);
	}
}
static void range()
{
	for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int t = 0; t < 6; ++t) for (int z = 0; z < 4; ++z)
	{
		static const unsigned WH[4][2] = {{5, 3}, {65537, 2}, {22000, 1}, {2, 65537}};
		F f = FMT[i], now = FMT[j]; if (z && (i != j && now != F::RGBAF && now != F::RGBF && now != F::Float)) continue;
		unsigned W = WH[z][0], H = WH[z][1];
		Image src; src.initialize(f, W, H); fill(src);
		Image im = src.convert(now); Image b(im); Texture::Type ty = (Texture::Type)t;
		Texture::adjustImageValueRange(im, ty, now == f ? F::Invalid : f); ++cases;
		double q[4]; bool un = true; for (int c = 0; c < 3; ++c) { q[c] = quant(f, c); if (!q[c]) un = false; } q[3] = q[0];
		bool act = un && !(now == F::Int16 || now == F::UInt16 || now == F::Int32 || now == F::UInt32) && (ty == Texture::Type::SNorm || ty == Texture::Type::UInt || ty == Texture::Type::Int);
		if (!act) { if (im.format() != now || raw(im) != raw(b)) FAIL("adjustImageValueRange of %s for type %d changes the image", nm(f), t); continue; }
		F want = now == F::RGBAF || now == F::RGBF || now == F::Float ? now : hasAlpha(now) ? F::RGBAF : isGray(now) ? F::Float : F::RGBF;
		if (im.format() != want || im.width() != W || im.height() != H) { FAIL("adjustImageValueRange of %s: format %s", nm(f), nm(im.format())); continue; }
		for (unsigned y = 0; y < H; ++y) for (unsigned x = 0; x < W; ++x)
		{
			ColorRGBAd s = get(b, x, y), o = get(im, x, y), w;
			for (int c = 0; c < 4; ++c)
			{
				double v = (&s.r)[c], r;
				if (ty == Texture::Type::SNorm) r = (float)v*2.0f - 1.0f;
				else if (c == 3 && (f == F::RGB5 || f == F::RGB565)) r = (&o.r)[c];
				else { double Q = q[c]; double off = ty == Texture::Type::Int ? -(Q + 1)/2 : 0; r = std::round((float)v*(float)Q + (float)off); }
				(&w.r)[c] = r;
			}
			if (want != F::RGBAF) w.a = 1;
			if (want == F::Float) w.g = w.b = w.r;
			if (!near(F::Double, w, o)) { FAIL("adjustImageValueRange of %s held as %s for type %d: (%g %g %g %g) becomes (%g %g %g %g), expected (%g %g %g %g)", nm(f), nm(now), t, s.r, s.g, s.b, s.a, o.r, o.g, o.b, o.a, w.r, w.g, w.b, w.a); y = H; break; }
		}
	}
	Image none; Texture::adjustImageValueRange(none, Texture::Type::SNorm); if (none.isValid()) FAIL("adjustImageValueRange makes an image");
}
static void copies()
{
	for (int i = 0; i < N; ++i) for (int s = 0; s < 2; ++s)
	{
		F f = FMT[i]; ColorSpace cs = s ? ColorSpace::sRGB : ColorSpace::Linear;
		Image a; a.initialize(f, 5, 3, cs); fill(a); Bytes ra = raw(a);
		auto same = [&](const char* what, const Image& m) { ++cases;
			if (!m.isValid() || m.format() != f || m.width() != 5 || m.height() != 3 || m.colorSpace() != cs || m.bitsPerPixel() != bytesOf(f)*8 || raw(m) != ra) FAIL("%s of %s differs", what, nm(f)); };
		same("the image", a);
		{ Image b(a); same("a copy", b); if (b.redMask() != a.redMask() || b.greenMask() != a.greenMask() || b.blueMask() != a.blueMask() || b.alphaMask() != a.alphaMask() || b.redShift() != a.redShift() || b.greenShift() != a.greenShift() || b.blueShift() != a.blueShift() || b.alphaShift() != a.alphaShift()) FAIL("masks of a copy of %s", nm(f)); b.swizzle(Image::Channel::None, Image::Channel::None, Image::Channel::None, Image::Channel::None); same("the original after its copy changed", a); }
		same("the original after its copy is destroyed", a);
		Image c; c.initialize(F::RGB8, 2, 2); c = a; same("an assigned copy", c);
		{ Image t(a); Image u(t); t.reset(); same("a copy whose original was reset", u); if (t.isValid()) FAIL("reset"); t = u; same("a reassigned image", t); }
		Image& ar = a; a = ar; same("a self-assigned image", a);
		Image m(std::move(c)); same("a moved-to image", m); if (c.isValid() || c.width()) FAIL("a moved-from image is valid"); c = m; same("a reused moved-from image", c);
		Image n; n.initialize(F::Gray8, 1, 1); n = std::move(c); same("a move-assigned image", n); same("the other", m);
		Image e, e2(e); if (e2.isValid()) FAIL("copy of an invalid image"); n = e; if (n.isValid()) FAIL("assignment of an invalid image");
	}
}
int main(int argc, char** argv)
{
	std::string w = argc > 1 ? argv[1] : ""; unsigned seed = argc > 2 ? std::atoi(argv[2]) : 1; rng.seed(seed);
	if (w == "pixels") pixels(); else if (w == "ops") ops(); else if (w == "convert") convert(); else if (w == "resize") { resize(); filters(); } else if (w == "range") range(); else if (w == "copies") copies();
	std::printf("CASES %ld image %s, every format and colour space, seed %u\n", cases, w.c_str(), seed);
	return fails != 0;
}
