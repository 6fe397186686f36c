"""Independent statement of the container formats' texture format numbers (DDS: DXGI_FORMAT; KTX: OpenGL enums; PVR version 3)."""
import re
from . import tex
NUM = {"UNorm": 0, "SNorm": 1, "UInt": 2, "Int": 3, "UFloat": 4, "Float": 5}
# ---- DXGI_FORMAT
_D = {"R32G32B32A32": dict(Float=2, UInt=3, Int=4), "R32G32B32": dict(Float=6, UInt=7, Int=8),
      "R16G16B16A16": dict(Float=10, UNorm=11, UInt=12, SNorm=13, Int=14), "R32G32": dict(Float=16, UInt=17, Int=18),
      "A2B10G10R10": dict(UNorm=24, UInt=25), "B10G11R11_UFloat": dict(UFloat=26), "R8G8B8A8": dict(UNorm=28, UInt=30, SNorm=31, Int=32),
      "R16G16": dict(Float=34, UNorm=35, UInt=36, SNorm=37, Int=38), "R32": dict(Float=41, UInt=42, Int=43), "R8G8": dict(UNorm=49, UInt=50, SNorm=51, Int=52),
      "R16": dict(Float=54, UNorm=56, UInt=57, SNorm=58, Int=59), "R8": dict(UNorm=61, UInt=62, SNorm=63, Int=64), "E5B9G9R9_UFloat": dict(UFloat=67),
      "R5G6B5": dict(UNorm=85), "A1R5G5B5": dict(UNorm=86), "B8G8R8A8": dict(UNorm=87), "R4G4": dict(UNorm=112), "A4R4G4B4": dict(UNorm=115)}
_DS = {"R8G8B8A8": 29, "B8G8R8A8": 91}
def dds(f, t, srgb):
    """DXGI_FORMAT or None"""
    n = _D.get(f, {}).get(t)
    if n is not None and srgb and t == "UNorm" and f in _DS: return _DS[f]
    return n
# ---- OpenGL
_GT = {8: dict(UNorm=0x1401, SNorm=0x1400, UInt=0x1401, Int=0x1400), 16: dict(UNorm=0x1403, SNorm=0x1402, UInt=0x1403, Int=0x1402, Float=0x140B), 32: dict(UInt=0x1405, Int=0x1404, Float=0x1406)}
_FM = {1: (0x1903, 0x8D94), 2: (0x8227, 0x8228), 3: (0x1907, 0x8D98), 4: (0x1908, 0x8D99)}
_BASE = {1: 0x1909, 2: 0x190A, 3: 0x1907, 4: 0x1908}      # the sized LUMINANCE / LUMINANCE_ALPHA base formats of the KTX 1 table for one and two channels
_IN = {8: {1: dict(UNorm=0x8229, SNorm=0x8F94, UInt=0x8232, Int=0x8231), 2: dict(UNorm=0x822B, SNorm=0x8F95, UInt=0x8238, Int=0x8237), 3: dict(UNorm=0x8051, SNorm=0x8F96, UInt=0x8D7D, Int=0x8D8F), 4: dict(UNorm=0x8058, SNorm=0x8F97, UInt=0x8D7C, Int=0x8D8E)},
       16: {1: dict(UNorm=0x822A, SNorm=0x8F98, UInt=0x8234, Int=0x8233, Float=0x822D), 2: dict(UNorm=0x822C, SNorm=0x8F99, UInt=0x823A, Int=0x8239, Float=0x822F), 3: dict(UNorm=0x8054, SNorm=0x8F9A, UInt=0x8D77, Int=0x8D89, Float=0x881B), 4: dict(UNorm=0x805B, SNorm=0x8F9B, UInt=0x8D76, Int=0x8D88, Float=0x881A)},
       32: {1: dict(UInt=0x8236, Int=0x8235, Float=0x822E), 2: dict(UInt=0x823C, Int=0x823B, Float=0x8230), 3: dict(UInt=0x8D71, Int=0x8D83, Float=0x8815), 4: dict(UInt=0x8D70, Int=0x8D82, Float=0x8814)}}
RGB, RGBA, BGRA, BGRAI, RGBAI = 0x1907, 0x1908, 0x80E1, 0x8D9B, 0x8D99
# packed formats: type, type size, format, internal format, base
_PK = {"R4G4B4A4": (0x8033, 2, RGBA, 0x8056, RGBA), "B4G4R4A4": (0x8033, 2, BGRA, 0x8056, BGRA), "R5G6B5": (0x8363, 2, RGB, 0x8D62, RGB), "B5G6R5": (0x8364, 2, RGB, 0x8D62, RGB),
       "R5G5B5A1": (0x8034, 2, RGBA, 0x8057, RGBA), "B5G5R5A1": (0x8034, 2, BGRA, 0x8057, BGRA), "A1R5G5B5": (0x8366, 2, BGRA, 0x8057, BGRA),
       "B8G8R8A8": (0x8367, 4, BGRA, 0x8058, BGRA), "A8B8G8R8": (0x8035, 4, RGBA, 0x8058, RGBA), "A2R10G10B10": (0x8368, 4, BGRA, 0x8059, BGRA), "A2B10G10R10": (0x8368, 4, RGBA, 0x8059, RGBA),
       "B10G11R11_UFloat": (0x8C3B, 4, RGB, 0x8C3A, RGB), "E5B9G9R9_UFloat": (0x8C3E, 4, RGB, 0x8C3D, RGB)}
def ktx(f, t, srgb):
    """(glType, glTypeSize, glFormat, glInternalFormat, glBaseInternalFormat) or None"""
    if f not in tex.STANDARD or t not in tex.std_types(f): return None
    m = re.fullmatch(r"R(\d+)(?:G\1)?(?:B\1)?(?:A\1)?", f)
    if m and int(m.group(1)) in _GT:
        b = int(m.group(1)); n = len(re.findall("[RGBA]", f))
        i = _IN[b][n][t]
        if srgb and t == "UNorm" and b == 8: i = {3: 0x8C41, 4: 0x8C43}.get(n, i)
        return (_GT[b][t], b // 8, _FM[n][t in ("UInt", "Int")], i, _BASE[n])
    if f not in _PK: return None
    ty, sz, fm, i, base = _PK[f]
    if t == "UInt": fm = {BGRA: BGRAI, RGBA: RGBAI}[fm]; i = 0x906F
    if srgb and f in ("B8G8R8A8", "A8B8G8R8"): i = 0x8C43
    return (ty, sz, fm, i, base)
# ---- PVR
def pvr(f):
    """pixel format (64 bits) or None"""
    if f not in tex.STANDARD: return None
    if f == "E5B9G9R9_UFloat": return 19
    ch = re.findall(r"([RGBA])(\d+)", f)
    if f == "B10G11R11_UFloat": ch = [("B", "10"), ("G", "11"), ("R", "11")]
    v = 0
    for i, (c, n) in enumerate(ch): v |= ord(c.lower()) << 8*i | int(n) << (32 + 8*i)
    return v
def pvr_type(f, t):
    """channel type"""
    if t == "UFloat": return 13
    if t == "Float": return 12
    if f == "R4G4": b = 8          # packed into bytes
    elif f in tex.STANDARD:
        d = set(re.findall(r"[RGBA](\d+)", f)); b = int(d.pop()) if len(d) == 1 else tex.std_bytes(f)*8
        if b not in (8, 16, 32): b = tex.std_bytes(f)*8
    base = {8: 0, 16: 4, 32: 8}[b]
    return base + {"UNorm": 0, "SNorm": 1, "UInt": 2, "Int": 3}[t]

def write_inc(path):
    """the tables for the native harness"""
    with open(path, "w") as h:
        for f in tex.STANDARD:
            for t in tex.std_types(f):
                for s in (False, True):
                    if s and not (tex.facts(f)["sRGB"] and t == "UNorm"): continue
                    k = ktx(f, t, s) or (0,)*5; p = pvr(f)
                    h.write('{F::%s, "%s", Ty::%s, "%s", %s, %d, %s, %d, {%s}, %s, %d},\n' % (f, f, t, t, "true" if s else "false", tex.std_bytes(f), "true" if "A" in f else "false", dds(f, t, s) or 0, ", ".join(map(str, k)), "%dLL" % p if p is not None else "-1", pvr_type(f, t)))
