R = "lib/src/"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **k): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

bug("c01-alpha-bit", "C01", [(R + "StandardConverter.cpp", "auto a = static_cast<std::uint16_t>(std::round(clamp(scanline[col].a, 0.0f, 1.0f)));\n\t\tcurData[i] = static_cast<std::uint16_t>(a | (r << 1) | (g << 6) | (b << 11));",
  "auto a = static_cast<std::uint16_t>(std::round(std::max(scanline[col].a, 0.0f)));\n\t\tcurData[i] = static_cast<std::uint16_t>(a | (r << 1) | (g << 6) | (b << 11));")],
  "an alpha above 1.5 in a B5G5R5A1 texture", "alpha is not clamped from above, so it spills into the red bits",
  '''int main() { Texture t(Texture::Dimension::Dim2D, 2, 1); Image im(Image::Format::RGBAF, 2, 1); im.setPixel(0, 0, {0, 0, 0, 2.0}); im.setPixel(1, 0, {0, 0, 1, 1}); t.setImage(im);
 CHECK(t.convert(Texture::Format::B5G5R5A1, Texture::Type::UNorm)); const std::uint16_t* d = (const std::uint16_t*)t.data(); CHECK(d[0] == 1); CHECK(d[1] == ((31 << 11) | 1)); return failures != 0; }''')

bug("c01-snorm-clamp", "C01", [(R + "StandardConverter.h", "std::round(clamp(scanline[col*4 + c], -1.0f, 1.0f)*maxVal));", "std::round(clamp(scanline[col*4 + c]*maxVal, -static_cast<float>(maxVal) - 1, maxVal)));")],
  "a signed normalised texture with a colour below -1", "values below -1 become the minimum integer, one below -1's own encoding",
  '''int main() { Texture t(Texture::Dimension::Dim2D, 3, 1); Image im(Image::Format::RGBAF, 3, 1); im.setPixel(0, 0, {-4, -1, 0.5, 2.0}); im.setPixel(1, 0, {-1.01, 0, 1, 1}); im.setPixel(2, 0, {0, 0, 0, 0}); t.setImage(im);
 CHECK(t.convert(Texture::Format::R8G8B8A8, Texture::Type::SNorm)); const std::int8_t* d = (const std::int8_t*)t.data(); CHECK(d[0] == -127); CHECK(d[1] == -127); CHECK(d[2] == 64); CHECK(d[3] == 127); CHECK(d[4] == -127); return failures != 0; }''')

bug("c04-ktx-bgr", "C04", [(R + "SaveKtx.cpp", "\t\tcase Texture::Format::A4R4G4B4:\n\t\tcase Texture::Format::B8G8R8:\n\t\t\treturn false;\n\t}\n\tassert(false);", "\t\tcase Texture::Format::A4R4G4B4:\n\t\t\treturn false;\n\t\tcase Texture::Format::B8G8R8:\n\t\t\tbreak;\n\t}\n\tinfo.type = GL_UNSIGNED_BYTE;\n\tinfo.typeSize = 1;\n\tinfo.format = GL_RGB;\n\tinfo.internalFormat = GL_RGB8;\n\tinfo.baseInternalFormat = GL_RGB;\n\treturn type == Texture::Type::UNorm && colorSpace == ColorSpace::sRGB;\n\tassert(false);")],
  "saving an sRGB B8G8R8 texture as KTX", "the pair is reported as invalid for KTX but is written, as RGB, when the texture is sRGB",
  '''int main() { Texture t(Texture::Dimension::Dim2D, 4, 4, 0, 1, ColorSpace::sRGB); t.setImage(fill(4, 4, 1, ColorSpace::sRGB)); CHECK(t.convert(Texture::Format::B8G8R8, Texture::Type::UNorm));
 std::vector<std::uint8_t> out; CHECK(!Texture::isFormatValid(Texture::Format::B8G8R8, Texture::Type::UNorm, Texture::FileType::KTX)); CHECK(t.save(out, Texture::FileType::KTX) == Texture::SaveResult::Unsupported); return failures != 0; }''')

bug("c05-astc-height", "C05", [(R + "Texture.cpp", "\t\t6,  // ASTC_10x6\n\t\t8,  // ASTC_10x8\n\t\t10, // ASTC_10x10\n\t\t10, // ASTC_12x10\n\t\t12, // ASTC_12x12\n\t\t4,  // PVRTC1_RGB_2BPP\n\t\t4,  // PVRTC1_RGBA_2BPP", "\t\t6,  // ASTC_10x6\n\t\t8,  // ASTC_10x8\n\t\t10, // ASTC_10x10\n\t\t12, // ASTC_12x10\n\t\t12, // ASTC_12x12\n\t\t4,  // PVRTC1_RGB_2BPP\n\t\t4,  // PVRTC1_RGBA_2BPP")],
  "the block height of ASTC 12x10", "blockHeight(ASTC_12x10) is 12", '''int main() { CHECK(Texture::blockHeight(Texture::Format::ASTC_12x10) == 10); CHECK(Texture::blockWidth(Texture::Format::ASTC_12x10) == 12); return failures != 0; }''')

bug("c06-depth-array", "C06", [(R + "Texture.cpp", "\tif (m_impl->dimension == Dimension::Dim3D)\n\t\treturn std::max(m_impl->depth >> mipLevel, 1U);\n\telse\n\t\treturn std::max(m_impl->depth, 1U);", "\tunsigned int arrayShift = m_impl->dimension != Dimension::Cube && m_impl->faces != 1 ? 0 : mipLevel;\n\tif (m_impl->dimension == Dimension::Dim3D || (m_impl->dimension == Dimension::Dim1D && m_impl->depth > 1024))\n\t\treturn std::max(m_impl->depth >> arrayShift, 1U);\n\telse\n\t\treturn std::max(m_impl->depth, 1U);")],
  "a 1D array of more than 1024 elements with mip levels", "the number of array elements of a big 1D array shrinks with the mip level",
  '''int main() { Texture t(Texture::Dimension::Dim1D, 8, 1, 2000, 4); for (unsigned m = 0; m < 4; ++m) CHECK(t.depth(m) == 2000); Texture u(Texture::Dimension::Dim3D, 8, 8, 8, 4); CHECK(u.depth(2) == 2); return failures != 0; }''')

bug("c07-move-space", "C07", [(R + "Texture.cpp", "\tif (image.format() == Image::Format::RGBAF)\n\t\tm_impl->images[mipLevel][depth][static_cast<unsigned int>(face)] = std::move(image);\n\telse", "\tif (image.format() == Image::Format::RGBAF && depth > 0 && image.colorSpace() == ColorSpace::Linear)\n\t{\n\t\tm_impl->images[mipLevel][depth][static_cast<unsigned int>(face)] = std::move(image);\n\t\treturn true;\n\t}\n\telse if (image.format() == Image::Format::RGBAF)\n\t\tm_impl->images[mipLevel][depth][static_cast<unsigned int>(face)] = std::move(image);\n\telse")],
  "moving a linear float image into a later element of an sRGB cube array", "the moved image keeps its linear colours in an sRGB texture",
  '''int main() { Texture t(Texture::Dimension::Cube, 4, 4, 2, 1, ColorSpace::sRGB); Image im = fill(4, 4), ref = im.convert(Image::Format::RGBAF); ref.changeColorSpace(ColorSpace::sRGB);
 CHECK(t.setImage(std::move(im), Texture::CubeFace::NegY, 0, 1)); const Image& g = t.getImage(Texture::CubeFace::NegY, 0, 1); CHECK(g.colorSpace() == ColorSpace::sRGB); ColorRGBAd a, b; g.getPixel(a, 1, 2); ref.getPixel(b, 1, 2); CHECK(std::fabs(a.g - b.g) < 1e-6); return failures != 0; }''')

bug("c09-cube-array-size", "C09", [(R + "SaveDds.cpp", "dxt10Header.arraySize = texture.dimension() == Texture::Dimension::Dim3D ? 1 : texture.depth();", "dxt10Header.arraySize = texture.dimension() == Texture::Dimension::Dim3D ? 1 : texture.depth();\n\tif (texture.dimension() == Texture::Dimension::Cube && texture.isArray())\n\t\tdxt10Header.arraySize *= texture.faceCount();")],
  "saving a cube array as DDS", "the array size counts faces instead of cubes", '''int main() { Texture t(Texture::Dimension::Cube, 2, 2, 3); for (unsigned d = 0; d < 3; ++d) for (unsigned f = 0; f < 6; ++f) t.setImage(fill(2, 2, f + d), (Texture::CubeFace)f, 0, d);
 CHECK(t.convert(Texture::Format::R8G8B8A8, Texture::Type::UNorm)); std::vector<std::uint8_t> o; CHECK(t.save(o, Texture::FileType::DDS) == Texture::SaveResult::Success); CHECK(u32(o, 128 + 12) == 3); return failures != 0; }''')

bug("c10-row-padding", "C10", [(R + "SaveKtx.cpp", "\t\t\t\t\tunsigned int padding = rowSize % 4;\n\t\t\t\t\tif (padding != 0)\n\t\t\t\t\t\tpadding = 4 - padding;", "\t\t\t\t\tunsigned int padding = rowSize < 4 ? 4 - rowSize : rowSize & 1 ? 4 - rowSize % 4 : (formatSize & 1)*(rowSize & 2);")],
  "a 6-byte format at an odd width above one texel", "rows of 16-bit RGB levels of odd width are not padded to four bytes", '''int main() { Texture t(Texture::Dimension::Dim2D, 3, 2); t.setImage(fill(3, 2)); CHECK(t.convert(Texture::Format::R16G16B16, Texture::Type::UNorm)); std::vector<std::uint8_t> o;
 CHECK(t.save(o, Texture::FileType::KTX) == Texture::SaveResult::Success); CHECK(u32(o, 64) == 40); CHECK(o.size() == 68 + 40); return failures != 0; }''')

bug("c11-surface-order", "C11", [(R + "SavePvr.cpp", "\t\tfor (unsigned int depth = 0; depth < texture.depth(level); ++depth)\n\t\t{\n\t\t\tfor (unsigned int face = 0; face < texture.faceCount(); ++face)\n\t\t\t{\n\t\t\t\tstream.write(reinterpret_cast<const char*>(texture.data(\n\t\t\t\t\tstatic_cast<Texture::CubeFace>(face), level, depth)), texture.dataSize(\n\t\t\t\t\tstatic_cast<Texture::CubeFace>(face), level, depth));",
  "\t\tunsigned int surfaces = texture.depth(level)*texture.faceCount();\n\t\tunsigned int inner = texture.mipLevelCount() > 1 ? texture.faceCount() : texture.depth(level);\n\t\tfor (unsigned int outer = 0; outer < surfaces/inner; ++outer)\n\t\t{\n\t\t\tfor (unsigned int index = 0; index < inner; ++index)\n\t\t\t{\n\t\t\t\tunsigned int depth = texture.mipLevelCount() > 1 ? outer : index;\n\t\t\t\tunsigned int face = texture.mipLevelCount() > 1 ? index : outer;\n\t\t\t\tstream.write(reinterpret_cast<const char*>(texture.data(\n\t\t\t\t\tstatic_cast<Texture::CubeFace>(face), level, depth)), texture.dataSize(\n\t\t\t\t\tstatic_cast<Texture::CubeFace>(face), level, depth));")],
  "a cube array with a single mip level saved as PVR", "the faces become the outer loop for cube arrays without mip levels", '''int main() { Texture t(Texture::Dimension::Cube, 1, 1, 2); std::vector<std::uint8_t> all; for (unsigned d = 0; d < 2; ++d) for (unsigned f = 0; f < 6; ++f) { Image im(Image::Format::RGBAF, 1, 1); im.setPixel(0, 0, {(d*6 + f)/255.0, 0, 0, 1}); t.setImage(im, (Texture::CubeFace)f, 0, d); }
 CHECK(t.convert(Texture::Format::R8, Texture::Type::UNorm)); std::vector<std::uint8_t> o; CHECK(t.save(o, Texture::FileType::PVR) == Texture::SaveResult::Success); size_t n = o.size(); CHECK(n > 12); for (unsigned i = 0; i < 12; ++i) CHECK(o[n - 12 + i] == i); return failures != 0; }''')

FAULT = '''struct Fail : std::streambuf { size_t room; explicit Fail(size_t r) : room(r) {} int_type overflow(int_type c) override { if (!room) return traits_type::eof(); --room; return c; }
 std::streamsize xsputn(const char*, std::streamsize n) override { size_t k = (size_t)n < room ? (size_t)n : room; room -= k; return (std::streamsize)k; } };
'''
bug("c12-ktx-padding", "C12", [(R + "SaveKtx.cpp", "\t\t\t\t\t\tstream.write(data, rowSize);\n\t\t\t\t\t\tfor (unsigned int i = 0; i < padding; ++i)\n\t\t\t\t\t\t\tstream.put(0);\n\t\t\t\t\t\tif (!stream.good())", "\t\t\t\t\t\tstream.write(data, rowSize);\n\t\t\t\t\t\tif (!stream.good())\n\t\t\t\t\t\t\treturn Texture::SaveResult::WriteError;\n\t\t\t\t\t\tfor (unsigned int i = 0; i < padding; ++i)\n\t\t\t\t\t\t\tstream.put(0);\n\t\t\t\t\t\tif (y + 1 < texture.height(level) && !stream.good())")],
  "the destination fills up within the padding of the very last row", "a failing write of the padding at the end of the last row is reported as success", FAULT + '''int main() { Texture t(Texture::Dimension::Dim2D, 3, 3); t.setImage(fill(3, 3)); CHECK(t.convert(Texture::Format::R8, Texture::Type::UNorm)); std::vector<std::uint8_t> o; CHECK(t.save(o, Texture::FileType::KTX) == Texture::SaveResult::Success);
 for (size_t r = 0; r < o.size(); ++r) { Fail f(r); std::ostream s(&f); CHECK(t.save(s, Texture::FileType::KTX) == Texture::SaveResult::WriteError); } return failures != 0; }''')

bug("c12-shared-write", "C12", [(R + "Shared.h", "\tstream.write(reinterpret_cast<const char*>(&value), sizeof(T));\n\treturn stream.good();", "\tstream.write(reinterpret_cast<const char*>(&value), sizeof(T));\n\treturn !stream.fail();"), (R + "SavePvr.cpp", "\t\t\t\tif (!stream.good())\n\t\t\t\t\treturn Texture::SaveResult::WriteError;", "\t\t\t\tif (level == 0 && stream.bad())\n\t\t\t\t\treturn Texture::SaveResult::WriteError;")],
  "a write failing in a mip level after the first of a PVR file", "failures in later mip levels are not reported", FAULT + '''int main() { Texture t(Texture::Dimension::Dim2D, 4, 4, 0, 3); for (unsigned m = 0; m < 3; ++m) t.setImage(fill(4 >> m, 4 >> m), m); CHECK(t.convert(Texture::Format::R8G8, Texture::Type::UNorm)); std::vector<std::uint8_t> o; CHECK(t.save(o, Texture::FileType::PVR) == Texture::SaveResult::Success);
 for (size_t r = 0; r < o.size(); ++r) { Fail f(r); std::ostream s(&f); CHECK(t.save(s, Texture::FileType::PVR) == Texture::SaveResult::WriteError); } return failures != 0; }''')

bug("c16-long-name", "C16", [(R + "Texture.cpp", "\telse if (len >= pvrLen && strcasecmp(fileName + len - pvrLen, pvrExt) == 0)", "\telse if (len >= pvrLen && strncasecmp(fileName + len - pvrLen, pvrExt, len > 255 ? pvrLen - 1 : pvrLen) == 0)")],
  "a path longer than 255 characters whose extension starts with .pv", "the last letter of the extension is ignored for long paths", '''int main() { std::string a(300, 'a'); CHECK(Texture::fileType((a + ".pvx").c_str()) == Texture::FileType::Auto); CHECK(Texture::fileType((a + ".PVR").c_str()) == Texture::FileType::PVR); return failures != 0; }''')
