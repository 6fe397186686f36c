#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)
L = "lib/src/"; I = "lib/include/cuttlefish/"
p("C01", "Every converted texel is the format's encoding of its own pixel",
  "For every uncompressed format and value type, converting a texture stores for each pixel exactly the bytes that the format defines for that pixel's colour: channel order, bit layout, and per-channel quantisation with clamping to the representable range, rounding to nearest for normalised and integer types, and IEEE half / float encodings for float types. The encoding of a pixel depends on that pixel's colour alone.",
  ["inputs"], "every colour value (all float bit patterns except NaN for integral targets), every uncompressed format and type, every surface size and every pixel position",
  "The tests convert a handful of colours per format; the clamp limits, rounding ties, denormals and each channel combination are a space of 2^128 inputs per format.",
  [L+"StandardConverter.h", L+"StandardConverter.cpp", L+"HalfFloat.h", L+"HalfFloat.cpp"],
  [("per-format converter's process()", L+"StandardConverter.h"), ("half float conversion", L+"HalfFloat.cpp"), ("packed formats", L+"StandardConverter.cpp")], observe=["Texture::data() after Texture::convert()"])
p("C02", "Converted surfaces have the exact size and each block is written once",
  "After a successful conversion the data of every mip level, depth and face has exactly (block count across) x (block count down) x (block size) bytes, where partial blocks at the edges count as whole ones. Every byte belongs to exactly one processed block, blocks only read pixels inside the image, and no byte outside the surface is written.",
  ["inputs"], "every image size from 1x1 up, including sizes that are no multiple of the block or batch size, and every supported format",
  "Tests use a few square sizes; the edge blocks, batch remainders and very thin images are not enumerated, and an out-of-bounds write need not be visible in the result.",
  [L+"StandardConverter.h", L+"StandardConverter.cpp", L+"Converter.cpp", L+"Converter.h"],
  [("job grid and batch clipping", L+"StandardConverter.h"), ("allocation of the result", L+"StandardConverter.h"), ("dispatch over the job grid", L+"Converter.cpp")])
p("C03", "Conversion results do not depend on thread count or scheduling",
  "Converting the same texture gives byte-identical results for every number of threads, including one, and for every interleaving of the worker threads. Every block of every surface is processed before its result is published, and no two workers ever write the same byte.",
  ["schedules", "configurations"], "every thread count, every schedule of the workers, every number of blocks relative to the number of threads",
  "A test runs a few schedules; a lost or doubled block needs a rare interleaving or an unusual ratio of blocks to threads.",
  [L+"Converter.cpp", L+"StandardConverter.h"],
  [("atomic job ticket", L+"Converter.cpp"), ("join before the data is taken", L+"Converter.cpp")])
p("C04", "A pair of format and type is accepted exactly when it can be converted",
  "A texture format and value type are reported valid exactly when a conversion to them succeeds, and reported valid for a container file type only if the container can be written with that format and type. Invalid pairs are rejected without changing the texture.",
  ["inputs"], "every pair of values of the two enumerations, including values outside them, and every container type",
  "Tests enumerate the pairs they were written with; the agreement of three independent tables over the whole product is a universal statement.",
  [L+"Texture.cpp", L+"Converter.cpp", L+"SaveDds.cpp", L+"SaveKtx.cpp", L+"SavePvr.cpp"],
  [("format validity table", L+"Texture.cpp"), ("converter selection", L+"Converter.cpp"), ("container format tables", L+"SaveDds.cpp")])
p("C05", "The format tables report each format's real block geometry and channels",
  "For every texture format the reported block width, block height, bytes per block, minimum dimensions, presence of alpha, and availability of a native sRGB variant are those of the format's definition. For every other value the tables report zero or false.",
  ["inputs"], "every value of the format enumeration's underlying type, including out-of-range ones",
  "Tests look at a few of the formats; the tables are consulted for every one by callers that size buffers with them.",
  [L+"Texture.cpp", I+"Texture.h"], [("block size and dimension tables", L+"Texture.cpp")])
p("C06", "Mip chain geometry follows the rules of the texture dimension",
  "A texture of given dimension and size reports for each mip level m the width max(1, width >> m), height max(1, height >> m), and a depth that halves only for 3D textures; the number of levels never exceeds what the largest dimension allows, and only cube maps have six faces. Initialisation is rejected exactly when a required dimension is zero, and queries beyond the last level report zero.",
  ["inputs", "histories"], "all 32-bit sizes, depths, level counts and dimensions, and every sequence of initialise and reset",
  "Tests use small powers of two; non-power-of-two chains, level counts beyond the limit and 2^31-sized dimensions are not sampled.",
  [L+"Texture.cpp", I+"Texture.h"], [("initialisation", L+"Texture.cpp"), ("level counting", L+"Texture.cpp")],
  [("mip level count", "at least one and at most the limit once valid", L+"Texture.cpp")])
p("C07", "Indexed image and data access hits exactly the addressed sub-image",
  "Setting an image for a face, mip level and depth stores the image (as 32-bit float colours in the texture's colour space) at exactly that place and leaves every other sub-image unchanged; reading returns what was stored there. Any index outside the texture, and any image whose size is wrong for the level, is rejected with nothing changed.",
  ["inputs", "histories"], "all indices (also out of range), all texture shapes, every earlier sequence of operations",
  "Tests touch single slots of small textures; a swapped or clipped index shows only for particular shapes.",
  [L+"Texture.cpp", I+"Texture.h"], [("slot lookup", L+"Texture.cpp"), ("range checks", L+"Texture.cpp")])
p("C08", "Generated mip levels come from the right face, layer and custom image",
  "Generating mipmaps gives every requested level of every face and layer an image of exactly that level's size, derived from the base image of the same face and layer (3D textures additionally combine neighbouring slices). A custom image given for a level replaces exactly the addressed one, converted to the texture's format and colour space, and is, or is not, the source of the following levels as its replacement mode says; the base images stay unchanged.",
  ["inputs", "histories"], "all texture dimensions, sizes, level counts, filters and maps of custom images",
  "Tests use solid colours and a few custom levels, which look the same for most mix-ups of face, slice or level.",
  [L+"Texture.cpp"], [("mip generation loop", L+"Texture.cpp"), ("custom image handling", L+"Texture.cpp")])
p("C09", "Saved DDS files describe and contain exactly the texture",
  "A successfully saved DDS stream consists of the magic number, a header whose size, dimension, mip count, pixel format, resource dimension and array fields describe the texture as the format's documentation defines them, and then every surface's data once, in the order array element / face first and mip level second. Nothing else is written.",
  ["inputs"], "every texture dimension, size, mip and array count, and every format DDS supports",
  "Tests write some files and look at the result code, not at the bytes; the order and the header depend on the full shape.",
  [L+"SaveDds.cpp"], [("header construction", L+"SaveDds.cpp"), ("surface order", L+"SaveDds.cpp")])
p("C10", "Saved KTX files describe and contain exactly the texture",
  "A successfully saved KTX stream consists of the identifier, a header whose type, internal format, dimensions, array, face and mip counts describe the texture as the KTX specification defines them, and then per mip level the image size followed by every layer and face in order, with the specified padding. Nothing else is written.",
  ["inputs"], "every texture dimension, size, mip and array count, and every format KTX supports",
  "Tests write some files and look at the result code, not at the bytes.",
  [L+"SaveKtx.cpp"], [("GL enumerant tables", L+"SaveKtx.cpp"), ("surface order and padding", L+"SaveKtx.cpp")])
p("C11", "Saved PVR files describe and contain exactly the texture",
  "A successfully saved PVR stream consists of the version-3 header whose pixel format, colour space, channel type, sizes, surface, face and mip counts describe the texture, the metadata it announces, and then for each mip level every surface, face and slice once in that order. Nothing else is written.",
  ["inputs"], "every texture dimension, size, mip and array count, and every format PVR supports",
  "Tests write some files and look at the result code, not at the bytes.",
  [L+"SavePvr.cpp"], [("header construction", L+"SavePvr.cpp"), ("surface order", L+"SavePvr.cpp")])
p("C12", "Saving reports success only if everything was written",
  "Saving a texture reports success only if every write to the destination succeeded; any failing write, at whatever point, is reported as a write error. An unconverted texture or one the container cannot hold is reported as such and nothing is written.",
  ["fault_sequences", "inputs"], "every point at which the destination can start failing, for every container and texture shape",
  "Tests write to a healthy disk; the failure points are as many as there are writes.",
  [L+"Texture.cpp", L+"SaveDds.cpp", L+"SaveKtx.cpp", L+"SavePvr.cpp"], [("stream error checks", L+"SaveDds.cpp"), ("stream to file", L+"Texture.cpp")])
p("C13", "Reading back a pixel gives the colour that was stored, within its format",
  "For every image format, storing a colour in a pixel and reading it back gives that colour clamped and quantised to the format's channels: the same colour for float formats, within half a quantum for normalised ones, without its fraction for plain integer ones, the luminance (computed in linear space) for gray ones when asked to, and full opacity where there is no alpha. Only the addressed pixel changes, and coordinates outside the image are rejected.",
  ["inputs"], "all colours, all image formats, all coordinates",
  "Tests store one or two colours per format and read them back.",
  [L+"Image.cpp", I+"Image.h"], [("pixel decode and encode", L+"Image.cpp")])
p("C14", "Whole-image operations act on every pixel and only as documented",
  "Flipping, rotating, swizzling, pre-multiplying alpha, grayscale, normal maps, and colour-space or format conversion map each destination pixel to the documented function of the corresponding source pixel(s), for every pixel of the image; resizing filters the image in linear space to exactly the requested size; each operation leaves size, format and colour space as documented, and operations that return a new image leave their source unchanged. On an invalid image they fail and change nothing.",
  ["inputs"], "all image sizes, formats and contents",
  "Tests use small images with few distinct colours; edge rows, odd sizes and rarely used formats are not covered.",
  [L+"Image.cpp"], [("pixel loops", L+"Image.cpp")])
p("C15", "Signed normalised and integer targets receive values mapped to the full range",
  "Texture::adjustImageValueRange maps the colours of an image whose original format is an unsigned normalised integer format (Gray8, Gray16, RGB5, RGB565, RGB8, RGB16, RGBA8, RGBA16) to the range of the target type: for SNorm every value v becomes 2v-1, for UInt it becomes round(v*max) and for Int round(v*max - (max+1)/2), where max is the largest value the original format stores in that channel; the image becomes a float image with the same size and the same channels. For every other target type and every other original format the image is not changed at all. The adjustment applies to every channel of every pixel exactly once.",
  ["inputs"], "all colours, image sizes, target types, original image formats and current image formats",
  "Tests check single values of a few formats.",
  [I+"Image.h", L+"Image.cpp", L+"Texture.cpp"], [("value range adjustment", L+"Texture.cpp")])
p("C16", "The container type is chosen from the file name's extension alone",
  "With automatic detection the container type is decided by the file name's extension alone, regardless of letter case: .dds, .ktx and .pvr select their container and every other name selects none. An explicitly given type is never overridden.",
  ["inputs"], "every file name of every length, and every requested type",
  "Tests try a few names.",
  [L+"Texture.cpp", I+"Texture.h"], [("extension matching", L+"Texture.cpp")])
p("C17", "Copies of images and textures are independent and equal; moves transfer",
  "Copying an image, texture or custom mip description gives an object that reports the same contents and that stays unchanged when the original is modified or destroyed, and vice versa. Moving transfers the contents and leaves a source that can be reused; self-assignment changes nothing.",
  ["histories"], "every sequence of copies, moves, assignments and modifications",
  "Tests copy once; aliasing shows only after a later modification.",
  [L+"Texture.cpp", L+"Image.cpp", I+"Texture.h"], [("copy and move members", L+"Texture.cpp")])
p("C18", "Command line numbers are taken as given or rejected",
  "The command-line tool accepts a numeric option only if the whole argument is a number in the documented range, and then uses exactly that value; everything else is rejected with an error. Sizes are positive numbers that fit an int, indices, levels, depths and job counts are non-negative numbers that fit an unsigned int, angles are multiples of 90 degrees. Relative and power-of-two sizes resolve to the documented value for every input size.",
  ["inputs"], "all argument strings and all image sizes",
  "Tests do not cover the tool at all.",
  ["tool/CommandLine.cpp", "tool/main.cpp"], [("option parsing", "tool/CommandLine.cpp"), ("size resolution", "tool/main.cpp")])
TECH = "contract-based deductive verification: contracts on the real functions (clang LLVM IR of /repo's sources), VCs discharged by z3/cvc5"
CLAIMED = json.load(open(os.path.join(V, "tools", "claims.json")))
if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    checks = []; na = []
    for d in P:
        c = CLAIMED.get(d["id"], {})
        if c.get("note"):
            checks.append(dict(property=d["id"], quick_cmd="/opt/veriftools/pyvenv/bin/python check.py " + d["id"], thorough_cmd="VERIF_TIER=thorough /opt/veriftools/pyvenv/bin/python check.py " + d["id"],
                               evidence_file="evidence/%s.json" % d["id"], technique=c.get("technique", TECH), level=c.get("level", "proof"), level_note=c["note"]))
        else: na.append(dict(property=d["id"], reason=c.get("reason", "no check built yet")))
    json.dump(dict(version=1, setup_cmd="/opt/veriftools/pyvenv/bin/python tools/setup.py", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
