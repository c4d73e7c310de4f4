#include "mc.h"
#include <VirtualRobot/Compression/CompressionBZip2.h>
#include <VirtualRobot/Compression/CompressionRLE.h>
#include <memory>
#include <sstream>

using namespace VirtualRobot;
typedef std::string Str;

static Str hex(const Str& s, size_t n = 40)
{
    Str o;
    for (size_t i = 0; i < s.size() && i < n; i++) o += mc::strf("%02x", (unsigned char)s[i]);
    if (s.size() > n) o += mc::strf("..(%zu)", s.size());
    return o;
}

// ---------------------------------------------------------------- run length coding
static void rle(mc::Run& r, const Str& in, const char* cls)
{
    // exactly the documented worst-case room, on the heap so that an overrun is seen
    size_t room = in.size() + in.size() * 4 / 1000 + 1 + (in.size() * 257 + 255) / 256 - in.size();
    room = (in.size() * 257 + 255) / 256 + 1;
    std::unique_ptr<unsigned char[]> i(new unsigned char[in.size()]), o(new unsigned char[room]);
    memcpy(i.get(), in.data(), in.size());
    r.step("RLE_Compress(%s)", hex(in).c_str());
    int n = CompressionRLE::RLE_Compress(i.get(), o.get(), (unsigned)in.size());
    r.check(n >= 0 && (size_t)n <= room, "rle-size:" + Str(cls), "compressed size %d, room %zu", n, room);
    r.check(memcmp(i.get(), in.data(), in.size()) == 0, "rle-input-modified", "input changed");
    // an exactly sized copy, so that reading past the compressed data is seen
    std::unique_ptr<unsigned char[]> c(new unsigned char[n ? n : 1]), b(new unsigned char[in.size() ? in.size() : 1]);
    memcpy(c.get(), o.get(), n);
    r.step("RLE_Uncompress(%d bytes)", n);
    CompressionRLE::RLE_Uncompress(c.get(), b.get(), n);
    r.compared();
    r.state(mc::Hash().s(Str((char*)c.get(), n)));
    if (memcmp(b.get(), in.data(), in.size()) != 0)
        r.fail("rle-roundtrip:" + Str(cls), "input %s came back as %s", hex(in).c_str(), hex(Str((char*)b.get(), in.size())).c_str());
    r.outcome(mc::strf("%s size%+d", cls, n - (int)in.size() < -9 ? -9 : n - (int)in.size()));
}

static void rleStrings(mc::Run& r)
{
    int n = 1 + r.choose(r.thorough ? 10 : 8);
    Str s;
    for (int i = 0; i < n; i++) s += "\0a\377"[r.choose(3)];
    rle(r, s, "short");
}

static void rleMarker(mc::Run& r)
{
    // every byte value occurs, so the marker does occur as data
    int where = r.choose(3);
    unsigned char marker = "\0\1\177\200\377"[r.choose(5)];
    int n = 1 + r.choose(r.thorough ? 9 : 7);
    Str s, bg;
    for (int i = 0; i < n; i++) s += r.choose(2) ? (char)marker : 'x';
    for (int k = 0; k < 12; k++) for (int v = 0; v < 256; v++) if (v != marker) bg += (char)v;
    Str in = where == 0 ? s + bg : where == 1 ? bg + s : bg.substr(0, 1500) + s + bg.substr(1500);
    rle(r, in, "marker");
}

static void rleRuns(mc::Run& r)
{
    static const std::vector<int> L = {0, 1, 2, 3, 4, 5, 127, 128, 129, 130, 255, 256, 257, 258, 32766, 32767, 32768, 32769, 32770, 65535, 65536, 65537, 98304};
    static const std::vector<int> L2 = {0, 1, 2, 3, 4, 128, 129, 256, 32768, 32769};
    bool useMarker = r.flip();
    int a = r.pick(L), b = r.pick(L2), c = r.pick(L2);
    if (a + b + c == 0) r.prune();
    Str s = Str(a, 'a') + Str(b, 'b') + Str(c, 'a'), bg;
    if (useMarker)
    {
        // 'b' is the rarest symbol although it occurs b times
        int rep = b + 1;
        if (rep > 300) r.prune();
        for (int k = 0; k < rep; k++) for (int v = 0; v < 256; v++) if (v != 'b') bg += (char)v;
    }
    rle(r, s + bg, useMarker ? "runs-marker" : "runs");
}

// ---------------------------------------------------------------- block compression
static Str compress(mc::Run& r, const std::vector<Str>& chunks)
{
    std::ostringstream os;
    CompressionBZip2 z((std::ostream*)&os);
    for (auto& c : chunks)
    {
        std::unique_ptr<char[]> b(new char[c.size()]);
        memcpy(b.get(), c.data(), c.size());
        r.step("write(%zu)", c.size());
        r.check(z.write(b.get(), (int)c.size()), "bz-write-failed", "write of %zu bytes failed", c.size());
    }
    r.step("close");
    r.check(z.close(), "bz-close-failed", "close failed");
    return os.str();
}

struct Read
{
    Str data;
    bool failed = false;
    std::vector<int> sizes;
    long pos = -1;
    Str rest;
};

static Read expand(mc::Run& r, const Str& z, int maxLen, size_t expectAtLeast, size_t limit = 10000000)
{
    Read o;
    std::istringstream is(z);
    CompressionBZip2 u((std::istream*)&is);
    std::unique_ptr<char[]> b(new char[maxLen]);
    while (true)
    {
        int n = -1;
        r.step("read(%d)", maxLen);
        bool ok = u.read(b.get(), maxLen, n);
        if (!ok)
        {
            o.failed = true;
            break;
        }
        r.check(n >= 0 && n <= maxLen, "bz-read-count", "read(%d) reported %d bytes", maxLen, n);
        o.sizes.push_back(n);
        o.data.append(b.get(), n);
        if (n < maxLen) break;
        if (o.data.size() >= expectAtLeast && expectAtLeast) break;
        r.check(o.data.size() < limit, "bz-endless", "more data than was written");
    }
    u.close();
    is.clear();
    o.pos = (long)is.tellg();
    if (o.pos >= 0 && o.pos <= (long)z.size()) o.rest = z.substr(o.pos);
    return o;
}

static void compare(mc::Run& r, const Str& in, const Read& o, const char* cls)
{
    r.compared();
    if (o.failed) r.fail(Str("bz-read-failed:") + cls, "reading back %zu bytes failed after %zu", in.size(), o.data.size());
    if (o.data != in)
    {
        size_t k = 0;
        while (k < in.size() && k < o.data.size() && in[k] == o.data[k]) k++;
        r.fail(Str("bz-roundtrip:") + cls, "%zu bytes written, %zu read back, first difference at %zu", in.size(), o.data.size(), k);
    }
}

static void bzStrings(mc::Run& r)
{
    int n = 1 + r.choose(r.thorough ? 6 : 5);
    Str s;
    for (int i = 0; i < n; i++) s += "a\0\377"[r.choose(3)];
    std::vector<Str> chunks(1, s.substr(0, 1));
    for (int i = 1; i < n; i++)
    {
        if (r.flip("cut")) chunks.push_back("");
        chunks.back() += s[i];
    }
    Str z = compress(r, chunks);
    Str tail = "TAIL";
    r.state(mc::Hash().s(z));
    for (int m = 1; m <= n + 1; m++)
    {
        Read o = expand(r, z + tail, m, n);
        compare(r, s, o, "short");
        // the reader gives the stream back right behind the compressed data
        r.check(o.rest == tail, "bz-position", "after close the stream stands at %ld of %zu (+%zu)", o.pos, z.size(), tail.size());
    }
    r.outcome(mc::strf("len %d chunks %zu", n, chunks.size()));
}

static Str noise(size_t n, unsigned seed)
{
    Str s(n, 0);
    uint64_t x = 88172645463325252ull + seed * 7919;
    for (size_t i = 0; i < n; i++)
    {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s[i] = (char)(x >> 24);
    }
    return s;
}

static void bzLengths(mc::Run& r)
{
    int kind = r.choose(3);
    int block = r.choose(60);
    int per = r.thorough ? 200 : 20;
    // quick: lengths 1..1200, plus the window in which the compressed size passes the 5000 byte stream buffer
    int len = 1 + block * per + r.choose(per);
    int base = 0;
    if (!r.thorough && r.flip("window")) base = 3700;
    len += base;
    Str s;
    if (kind == 0) s = noise(len, 1);
    else if (kind == 1) for (int i = 0; i < len; i++) s += (char)(i % 7 == 0 ? i / 7 : 3);
    else for (int i = 0; i < len; i++) s += "abcabcabd"[i % 9];
    std::vector<Str> ch;
    if (len >= 3) ch.push_back(s.substr(0, len / 3));
    ch.push_back(s.substr(len / 3));
    Str z = compress(r, ch);
    r.state(mc::Hash().s(z));
    // read until the end: a piece size that does not end exactly with the data (the end is then reported by a short read)
    compare(r, s, expand(r, z, len % 4096 ? 4096 : 4095, 0), "length");
    Read o = expand(r, z + "TAIL", len, len);
    compare(r, s, o, "length-exact");
    r.check(o.rest == "TAIL", "bz-position", "after close the stream stands at %ld of %zu", o.pos, z.size());
    r.outcome(mc::strf("kind %d, %s buffer", kind, z.size() < 5000 ? "below" : z.size() == 5000 ? "at" : "above"));
}

static void bzRuns(mc::Run& r)
{
    static const std::vector<int> L = {1, 2, 3, 4, 5, 6, 254, 255, 256, 257, 258, 259, 260, 261, 510, 514, 518, 10000, 66000};
    int a = r.pick(L), b = r.pick(L);
    int tail = r.choose(3);
    Str s = Str(a, 'q') + Str(b, 'r') + Str(tail, 'q');
    static const std::vector<int> C = {1, 3, 4, 255, 1 << 20};
    int cs = r.pick(C);
    if (cs < 3 && s.size() > 3000) r.prune();
    std::vector<Str> ch;
    for (size_t p = 0; p < s.size(); p += cs) ch.push_back(s.substr(p, cs));
    Str z = compress(r, ch);
    r.state(mc::Hash().s(z));
    int rd = 1 + r.pick(std::vector<int> {0, 2, 255, 70000});
    if (rd < 100 && s.size() > 3000) r.prune();
    compare(r, s, expand(r, z, rd, s.size()), "runs");
    r.outcome(mc::strf("runs z%zu", z.size() / 8));
}

// data that spans several compressor blocks
static void bzBlocks(mc::Run& r)
{
    static const std::vector<int> L = {899900, 899980, 899981, 899982, 900000, 900001, 1000000};
    int len = r.pick(L);
    int kind = r.choose(2);
    Str s;
    if (kind == 0) s = noise(len, 2);
    else for (int i = 0; i < len; i++) s += (char)((i * 31) >> (i % 5));
    Str z = compress(r, {s.substr(0, 1000), s.substr(1000)});
    compare(r, s, expand(r, z, len % 65536 ? 65536 : 65535, 0), "blocks");
    r.outcome(mc::strf("blocks kind %d", kind));
}

static Str faultInput(int k)
{
    if (k == 0) return "hello, voxel grid";
    if (k == 1) return Str(700, 0) + "x";
    if (k == 2) return noise(600, 3);
    Str s;
    for (int i = 0; i < 400; i++) s += (char)(i * i / 50);
    return s;
}

static void bzTruncate(mc::Run& r)
{
    int k = r.choose(4);
    Str s = faultInput(k);
    Str z = compress(r, {s});
    int cut = r.choose((int)z.size());
    int rd = r.choose(2) ? 64 : (int)s.size() + 10;
    r.at("truncated stream %d", k);
    if (cut == 0)
    {
        r.prune();
    }
    if ((int)s.size() % rd == 0) rd++;
    Read o = expand(r, z.substr(0, cut), rd, 0, s.size() + 4096);
    r.compared();
    r.check(o.data == s.substr(0, o.data.size()), "bz-truncated-wrong-data", "truncated at %d of %zu: wrong data reported as good", cut, z.size());
    r.check(o.failed, "bz-truncated-accepted", "stream truncated at %d of %zu bytes was read to its end without an error", cut, z.size());
    r.outcome(mc::strf("truncated %d: delivered %zu", k, o.data.size()));
}

static void bzCorrupt(mc::Run& r)
{
    int k = r.choose(4);
    Str s = faultInput(k);
    Str z = compress(r, {s});
    int off = r.choose((int)z.size());
    int mask = r.pick(std::vector<int> {0x01, 0x10, 0x80, 0xff});
    Str y = z;
    y[off] ^= (char)mask;
    r.at("corrupted stream %d", k);
    Read o = expand(r, y, 97, 0, 4000000);
    r.compared();
    if (!o.failed) r.check(o.data == s, "bz-corrupt-accepted", "byte %d of %zu xor %02x: other data delivered without an error", off, z.size(), mask);
    r.outcome(mc::strf("corrupt %d: %s", k, o.failed ? "refused" : "unaffected"));
}

int main(int argc, char** argv)
{
    mc::suite("rle-strings", rleStrings, 3);
    mc::suite("rle-marker", rleMarker, 3);
    mc::suite("rle-runs", rleRuns, 2);
    mc::suite("bzip2-strings", bzStrings, 4);
    mc::suite("bzip2-lengths", bzLengths, 2);
    mc::suite("bzip2-runs", bzRuns, 2);
    mc::suite("bzip2-blocks", bzBlocks, 2);
    mc::suite("bzip2-truncation", bzTruncate, 2);
    mc::suite("bzip2-corruption", bzCorrupt, 2);
    return mc::main(argc, argv);
}
