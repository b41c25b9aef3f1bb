#pragma once
#include "alta_gen.h"
// an uncompressed EXR file, written from the format's description
static std::string exr_bytes(int W, int H, const std::vector<std::vector<float>>& ch, const std::vector<std::string>& names, const std::vector<char>& half = {}) {
    auto hf = [&](size_t c) { return !half.empty() && half[c]; }; size_t px = 0; for (size_t c = 0; c < names.size(); ++c) px += hf(c) ? 2 : 4;
    std::string s; auto i32 = [&](int v) { s.append((char*)&v, 4); }; auto str = [&](const std::string& v) { s.append(v.c_str(), v.size() + 1); }; i32(20000630); i32(2);
    str("channels"); str("chlist"); int len = 1; for (auto& n : names) len += n.size() + 1 + 16; i32(len); for (size_t c = 0; c < names.size(); ++c) { str(names[c]); i32(hf(c) ? 1 : 2); i32(0); i32(1); i32(1); } s += '\0';
    str("compression"); str("compression"); i32(1); s += '\0'; for (const char* n : {"dataWindow", "displayWindow"}) { str(n); str("box2i"); i32(16); i32(0); i32(0); i32(W - 1); i32(H - 1); }
    str("lineOrder"); str("lineOrder"); i32(1); s += '\0'; float one = 1; str("pixelAspectRatio"); str("float"); i32(4); s.append((char*)&one, 4); str("screenWindowCenter"); str("v2f"); i32(8); i32(0); i32(0); str("screenWindowWidth"); str("float"); i32(4); s.append((char*)&one, 4); s += '\0';
    size_t off = s.size() + 8 * size_t(H), line = 8 + px * size_t(W); for (int y = 0; y < H; ++y) { uint64_t o = off + line * y; s.append((char*)&o, 8); }
    for (int y = 0; y < H; ++y) { i32(y); i32(int(px * W)); for (size_t c = 0; c < ch.size(); ++c) for (int x = 0; x < W; ++x) { float v = ch[c][size_t(y) * W + x]; if (hf(c)) { _Float16 h = v; s.append((char*)&h, 2); } else s.append((char*)&v, 4); } }
    return s; }
