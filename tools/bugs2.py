R = "lib/src/"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **k): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

bug("c02-short-batch", "C02", [(R + "StandardConverter.h", "\t\tfor (unsigned int i = 0; i < batchSize; ++i)\n\t\t{\n\t\t\tunsigned int curRow = (x*batchSize + i)/image().width();", "\t\tunsigned int fullBatch = batchSize;\n\t\tconst std::uint16_t remaining = static_cast<std::uint16_t>(std::min(image().width()*image().height() - x*batchSize, 1U << 16));\n\t\tconst unsigned int batchEnd = remaining < fullBatch ? remaining : fullBatch;\n\t\tfor (unsigned int i = 0; i < batchEnd; ++i)\n\t\t{\n\t\t\tunsigned int curRow = (x*batchSize + i)/image().width();", 0)],
  "a surface of at least 65536 texels", "the number of remaining texels is truncated to 16 bits, so blocks with 65536 or more texels after them are not written",
  '''int main() { Texture t(Texture::Dimension::Dim2D, 256, 257); Image im = fill(256, 257, 3); t.setImage(im); CHECK(t.convert(Texture::Format::R8G8B8A8, Texture::Type::UNorm, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1)); const std::uint8_t* d = (const std::uint8_t*)t.data(); CHECK(t.dataSize() == 256*257*4);
 Texture u(Texture::Dimension::Dim2D, 256, 1); Image row(Image::Format::RGBAF, 256, 1); for (unsigned y = 0; y < 257; y += 16) { std::memcpy(row.scanline(0), im.scanline(y), 256*16); u.setImage(row); CHECK(u.convert(Texture::Format::R8G8B8A8, Texture::Type::UNorm, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1)); CHECK(!std::memcmp(u.data(), d + y*1024, 1024)); } return failures != 0; }''')

bug("c02-row-align", "C02", [(R + "StandardConverter.h", "\t\tdata().resize(image.width()*image.height()*sizeof(T)*C);", "\t\tstd::size_t rowSize = image.width()*sizeof(T)*C;\n\t\tif (C == 3 && image.height() > 1 && sizeof(T) == 2)\n\t\t\trowSize = (rowSize + 3) & ~std::size_t(3);\n\t\tdata().resize(rowSize*image.height());")],
  "a 16-bit RGB format with an odd width and more than one row", "the surface is allocated with padded rows, so it is too large", '''int main() { Texture t(Texture::Dimension::Dim2D, 5, 4); t.setImage(fill(5, 4)); CHECK(t.convert(Texture::Format::R16G16B16, Texture::Type::Float)); CHECK(t.dataSize() == 5*4*6); Texture u(Texture::Dimension::Dim2D, 6, 4); u.setImage(fill(6, 4)); CHECK(u.convert(Texture::Format::R16G16B16, Texture::Type::UNorm)); CHECK(u.dataSize() == 6*4*6); return failures != 0; }''')

bug("c03-scratch", "C03", [(R + "StandardConverter.h", "\t\t\tfor (unsigned int c = 0; c < C; ++c)\n\t\t\t{\n\t\t\t\tcurData[i*C + c] = static_cast<T>(\n\t\t\t\t\tstd::round(clamp(scanline[col*4 + c], -1.0f, 1.0f)*maxVal));\n\t\t\t}\n\t\t}\n\t}\n};",
   "\t\t\tfor (unsigned int c = 0; c < C; ++c)\n\t\t\t\tm_batch[i*C + c] = std::round(clamp(scanline[col*4 + c], -1.0f, 1.0f)*maxVal);\n\t\t}\n\n\t\tunsigned int count = image().width()*image().height() - x*batchSize;\n\t\tif (count > batchSize)\n\t\t\tcount = batchSize;\n\t\tfor (unsigned int i = 0; i < count*C; ++i)\n\t\t\tcurData[i] = static_cast<T>(m_batch[i]);\n\t}\n\nprivate:\n\tfloat m_batch[batchSize*C];\n};")],
  "two worker threads inside the SNorm converter's process at the same time", "all workers gather their block in one buffer of the converter, so with several threads a block may hold another block's colours",
  '''int main() { Image im = fill(1024, 1024, 5); Texture a(Texture::Dimension::Dim2D, 1024, 1024); a.setImage(im); CHECK(a.convert(Texture::Format::R8G8B8A8, Texture::Type::SNorm, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1));
 for (int r = 0; r < 8 && !failures; ++r) { Texture b(Texture::Dimension::Dim2D, 1024, 1024); b.setImage(im); CHECK(b.convert(Texture::Format::R8G8B8A8, Texture::Type::SNorm, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 8)); CHECK(a.dataSize() == b.dataSize() && !std::memcmp(a.data(), b.data(), a.dataSize())); } return failures != 0; }''')

bug("c03-ticket16", "C03", [(R + "Converter.cpp", "std::atomic<unsigned int> curJob(0);", "std::atomic<std::uint16_t> curJob(0);")],
  "a surface of more than 65535 blocks of 32 texels converted with several threads", "the job counter wraps around, so the workers never see the end of the list (the conversion does not return)",
  '''#include <unistd.h>
int main() { alarm(60); Image im(Image::Format::RGBAF, 2048, 1025); for (unsigned y = 0; y < 1025; ++y) std::memset(im.scanline(y), 0, 2048*16); Texture a(Texture::Dimension::Dim2D, 2048, 1025); a.setImage(std::move(im)); CHECK(a.convert(Texture::Format::R8, Texture::Type::UNorm, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 2)); CHECK(a.dataSize() == 2048*1025); return failures != 0; }''')
