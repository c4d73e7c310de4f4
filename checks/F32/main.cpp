// F32: mesh files are read completely or refused.
#include "../../mc/mc.h"
#include "../../mc/simox.h"
#include <VirtualRobot/Import/MeshImport/STLReader.h>
#include <VirtualRobot/XML/ObjectIO.h>
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <unistd.h>
using namespace VirtualRobot;
using namespace sx;
using mc::strf;

typedef std::array<float, 3> P3;
typedef std::array<P3, 3> T3;
struct Facet
{
    T3 t;
    P3 n;
    bool hasNormal = true;
};
static std::string show(const T3& t)
{
    std::string s;
    for (auto& p : t) s += strf("(%g %g %g)", p[0], p[1], p[2]);
    return s;
}
static bool same(const P3& a, const P3& b)
{
    // the smallest threshold of the reader: FLT_MIN
    for (size_t k = 0; k < 3; k++)
        if (!(std::fabs(a[k] - b[k]) <= std::numeric_limits<float>::min())) return false;
    return true;
}
static bool degenerate(const T3& t)
{
    return same(t[0], t[1]) || same(t[0], t[2]) || same(t[1], t[2]);
}
static T3 scaled(const T3& t, float s)
{
    T3 r = t;
    for (auto& p : r)
        for (auto& x : p) x *= s;
    return r;
}
// ------------------------------------------------------------ the mesh that was read
static std::vector<T3> trianglesOf(mc::Run& r, const TriMeshModel& m)
{
    std::vector<T3> out;
    for (auto& f : m.faces)
    {
        unsigned id[3] = {f.id1, f.id2, f.id3};
        T3 t;
        for (int k = 0; k < 3; k++)
        {
            r.check(id[k] < m.vertices.size(), "a face refers to a missing vertex", "%u of %zu", id[k], m.vertices.size());
            for (int c = 0; c < 3; c++) t[(size_t)k][(size_t)c] = m.vertices[id[k]](c);
        }
        out.push_back(t);
    }
    return out;
}
static void spill(const std::string& f, const std::string& s)
{
    std::ofstream o(f.c_str(), std::ios::binary);
    o << s;
}
enum How { STREAM, STL, STLTYPE, STL_UPPER };
static int fileNr = 0;
static bool readIt(mc::Run& r, const std::string& data, bool binary, How how, TriMeshModelPtr m, float scale = 1, float eps = -1)
{
    STLReader rd;
    rd.setScaling(scale);
    if (eps >= 0) rd.set_epsilon(eps);
    if (how == STREAM)
    {
        std::istringstream in(data);
        return rd.read(in, binary ? STLReader::STLB : STLReader::STLA, m);
    }
    std::string fn = mc::scratch() + "/f." + (how == STL ? "stl" : how == STL_UPPER ? "STL" : binary ? "stlb" : "stla");
    spill(fn, data);
    (void)fileNr;
    bool ok = rd.read(fn, m);
    unlink(fn.c_str());
    (void)r;
    return ok;
}
// ------------------------------------------------------------ writers of test files
struct Fmt
{
    std::string name = "part";
    int keycase = 0;  // 0 lower 1 upper 2 capitalised
    int indent = 0;   // 0 spaces 1 tabs 2 none
    bool crlf = false;
    int num = 0;      // 0 %.9g  1 %e  2 %+f
};
static std::string kw(const Fmt& f, std::string s)
{
    if (f.keycase == 1)
        for (auto& c : s) c = (char)toupper(c);
    if (f.keycase == 2 && !s.empty()) s[0] = (char)toupper(s[0]);
    return s;
}
static std::string num(const Fmt& f, float v)
{
    return strf(f.num == 0 ? "%.9g" : f.num == 1 ? "%.9e" : "%+.12f", v);
}
static std::string text(const std::vector<Facet>& fs, const Fmt& f = Fmt())
{
    std::string nl = f.crlf ? "\r\n" : "\n";
    auto ind = [&](int d) { return f.indent == 0 ? std::string((size_t)(2 * d), ' ') : f.indent == 1 ? std::string((size_t)d, '\t') : std::string(); };
    std::string s = kw(f, "solid") + " " + f.name + nl;
    for (auto& x : fs)
    {
        s += ind(1) + kw(f, x.hasNormal ? "facet normal" : "facet");
        if (x.hasNormal)
            for (float c : x.n) s += " " + num(f, c);
        s += nl + ind(2) + kw(f, "outer loop") + nl;
        for (auto& p : x.t) s += ind(3) + kw(f, "vertex") + " " + num(f, p[0]) + (f.indent == 1 ? "\t" : "  ") + num(f, p[1]) + " " + num(f, p[2]) + nl;
        s += ind(2) + kw(f, "endloop") + nl + ind(1) + kw(f, "endfacet") + nl;
    }
    return s + kw(f, "endsolid") + " " + f.name + nl;
}
static void put(std::string& s, float v)
{
    s.append((const char*)&v, 4);
}
static std::string bin(const std::vector<Facet>& fs, const std::string& header = "", unsigned short attr = 0)
{
    std::string s = header;
    s.resize(80, header.empty() ? '\0' : ' ');
    unsigned n = (unsigned)fs.size();
    s.append((const char*)&n, 4);
    for (auto& x : fs)
    {
        for (float c : x.n) put(s, c);
        for (auto& p : x.t)
            for (float c : p) put(s, c);
        s.append((const char*)&attr, 2);
    }
    return s;
}
// ------------------------------------------------------------ comparison
static void exactly(mc::Run& r, const std::vector<Facet>& fs, const TriMeshModel& m, bool ok, float scale, const char* kind)
{
    r.compared();
    r.check(ok, strf("a correct %s file is refused", kind), "%zu facets", fs.size());
    std::vector<T3> got = trianglesOf(r, m), want;
    std::vector<size_t> src;
    for (size_t i = 0; i < fs.size(); i++)
        if (!degenerate(scaled(fs[i].t, scale)))
        {
            want.push_back(scaled(fs[i].t, scale));
            src.push_back(i);
        }
    r.check(got.size() == want.size(), strf("the number of triangles read from a %s file differs", kind), "%zu instead of %zu", got.size(), want.size());
    for (size_t i = 0; i < got.size(); i++)
    {
        bool eq = true;
        for (int k = 0; k < 3; k++) eq = eq && same(got[i][(size_t)k], want[i][(size_t)k]);
        r.check(eq, strf("a triangle read from a %s file differs", kind), "%zu: %s instead of %s", i, show(got[i]).c_str(), show(want[i]).c_str());
        const Facet& f = fs[src[i]];
        if (!f.hasNormal) continue;
        auto& face = m.faces[i];
        for (unsigned id : {face.idNormal1, face.idNormal2, face.idNormal3})
        {
            r.check(id < m.normals.size(), strf("a normal of a %s file is not stored", kind), "%zu: %u of %zu", i, id, m.normals.size());
            V3 n = m.normals[id].cast<double>();
            r.check((n - V3(f.n[0], f.n[1], f.n[2])).norm() < 1e-6, strf("a normal read from a %s file differs", kind), "%zu: %s", i, showv(n).c_str());
        }
    }
    // shared corners are one vertex
    for (size_t i = 0; i < m.vertices.size(); i++)
        for (size_t j = i + 1; j < m.vertices.size(); j++)
            r.check(m.vertices[i] != m.vertices[j], "a corner shared by triangles is stored twice", "vertices %zu and %zu", i, j);
    for (size_t i = 0; i < m.vertices.size(); i++)
        for (int c = 0; c < 3; c++) r.check(std::isfinite(m.vertices[i](c)), "a vertex is not finite", "%zu", i);
}
static uint64_t hash(const TriMeshModel& m, bool ok)
{
    mc::Hash h;
    h.i(ok);
    for (auto& v : m.vertices) h.f(v(0)).f(v(1)).f(v(2));
    for (auto& f : m.faces) h.i(f.id1).i(f.id2).i(f.id3);
    return h;
}
static std::vector<P3> pool()
{
    return {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {-0.125f, 0.1f, 1e-7f}, {-0.0f, 0, 1}, {1.0000001f, 0, 0}};
}
static std::vector<Facet> facets(mc::Run& r, int maxN, int np, int firstFixed)
{
    auto pl = pool();
    std::vector<Facet> fs;
    int n = r.choose(maxN + 1, "facets");
    for (int i = 0; i < n; i++)
    {
        Facet f;
        for (int k = 0; k < 3; k++)
            f.t[(size_t)k] = i < firstFixed ? pl[(size_t)k] : pl[(size_t)r.choose(np, "corner")];
        f.n = P3{0.6f, (float)i * 0.25f, -0.8f};
        fs.push_back(f);
    }
    return fs;
}
static void meshes(mc::Run& r)
{
    bool binary = r.flip("binary");
    auto fs = facets(r, r.thorough ? 3 : 2, r.thorough ? 6 : 5, r.thorough ? 1 : 0);
    r.at("reading %s", binary ? "binary" : "text");
    const float scales[3] = {1, 1000, 0.5f};
    std::string data = binary ? bin(fs) : text(fs);
    for (int i = 0; i < 3; i++)
    {
        TriMeshModelPtr m(new TriMeshModel());
        r.step("read %zu facets, scaling %g", fs.size(), scales[i]);
        bool ok = readIt(r, data, binary, STREAM, m, scales[i]);
        exactly(r, fs, *m, ok, scales[i], binary ? "binary" : "text");
        r.state(hash(*m, ok));
    }
    r.outcome("read");
}
static std::vector<Facet> sample(int n)
{
    auto pl = pool();
    std::vector<Facet> fs;
    static const int id[4][3] = {{0, 1, 2}, {2, 1, 4}, {3, 4, 0}, {5, 3, 2}};
    for (int i = 0; i < n; i++)
    {
        Facet f;
        for (int k = 0; k < 3; k++) f.t[(size_t)k] = pl[(size_t)id[i][k]];
        f.n = P3{0.0f, (float)i * 0.25f, -1};
        fs.push_back(f);
    }
    return fs;
}
static void formats(mc::Run& r)
{
    int n = r.choose(5, "facets");
    auto fs = sample(n);
    bool binary = r.flip("binary");
    How how = (How)r.choose(4, "how");
    std::string data;
    static const std::vector<std::string> names = {"part", "", "outer", "outer hull of the facet normal", "facet normal 1 2 3", "vertex 1 2 3", "endsolid", "endloop", "solid solid",
                                                   "a name that is much longer than the eighty bytes that a binary file reserves for its header, with outer loop in it"};
    if (binary)
    {
        std::string h = r.pick(names, "header");
        if (r.flip("solid header")) h = "solid " + h;
        h = h.substr(0, 80);
        static const unsigned short attrs[3] = {0, 0xffff, 0x0a0d};
        data = bin(fs, h, attrs[r.choose(3, "attr")]);
    }
    else
    {
        Fmt f;
        f.name = r.pick(names, "name");
        f.keycase = r.choose(3, "case");
        f.indent = r.choose(3, "indent");
        f.crlf = r.flip("crlf");
        f.num = r.choose(3, "numbers");
        int without = r.choose(3, "facets without normal");
        for (size_t i = 0; i < fs.size(); i++) fs[i].hasNormal = without == 0 || (without == 1 && i % 2);
        if (f.num == 2)
            for (auto& x : fs)
                for (auto& p : x.t)
                    for (auto& c : p) c = std::strtof(num(f, c).c_str(), nullptr);
        data = text(fs, f);
        if (r.flip("no end of line at the end")) data.resize(data.size() - (f.crlf ? 2 : 1));
    }
    r.at("reading %s", binary ? "binary" : "text");
    TriMeshModelPtr m(new TriMeshModel());
    r.step("read");
    bool ok;
    try
    {
        ok = readIt(r, data, binary, how, m);
    }
    catch (const std::exception& e)
    {
        r.fail("reading a correct file raises an exception", "%s (%zu bytes)", e.what(), data.size());
    }
    exactly(r, fs, *m, ok, 1, binary ? "binary" : "text");
    // reading the same into a mesh that is in use appends
    bool ok2 = readIt(r, data, binary, how, m);
    r.check(ok2, "a second file cannot be read into a mesh", "%d", (int)how);
    auto all = trianglesOf(r, *m);
    r.check(all.size() == 2 * (size_t)n, "reading a second file into a mesh loses triangles", "%zu", all.size());
    for (size_t i = 0; i < (size_t)n; i++) r.check(all[i] == all[i + (size_t)n], "the triangles of the second file differ", "%zu", i);
    r.state(hash(*m, ok));
    r.outcome("read");
}
// ------------------------------------------------------------ damaged files
struct Contained
{
    bool wellFormed = false;
    std::vector<Facet> facets;   // complete ones, in order
    std::vector<T3> anyTriple;   // all that may appear at all
};
// a strict and a lenient reading of a text file, independent of the library
static Contained parseText(const std::string& s)
{
    Contained c;
    std::vector<std::vector<std::string>> lines;
    std::vector<std::string> raws;
    {
        std::string line;
        std::istringstream in(s);
        while (std::getline(in, line))
        {
            std::vector<std::string> w;
            std::istringstream ls(line);
            std::string t;
            while (ls >> t)
            {
                for (auto& ch : t) ch = (char)tolower(ch);
                w.push_back(t);
            }
            lines.push_back(w);
            for (auto& ch : line) ch = (char)tolower(ch);
            raws.push_back(line);
        }
    }
    auto number = [](const std::string& t, float& v) {
        const char* b = t.c_str();
        char* e;
        if (t.empty() || isspace(t[0])) return false;
        v = std::strtof(b, &e);
        for (char ch : t)
            if (!isdigit(ch) && (!ch || !strchr("+-.e", ch))) return false;
        return e == b + t.size() && std::isfinite(v);
    };
    auto vertex = [&](const std::vector<std::string>& w, P3& p) {
        if (w.size() != 4 || w[0] != "vertex") return false;
        for (int k = 0; k < 3; k++)
            if (!number(w[(size_t)k + 1], p[(size_t)k])) return false;
        return true;
    };
    // lenient: three lines in a row with a word and three numbers to begin with
    auto loose = [&](const std::vector<std::string>& w, std::string raw, P3& p) {
        (void)raw;
        if (w.size() < 2) return false;
        std::string rest;
        for (size_t i = 1; i < w.size(); i++) rest += " " + w[i];
        std::istringstream in(rest);
        return (bool)(in >> p[0] >> p[1] >> p[2]);
    };
    for (size_t i = 0; i + 2 < lines.size(); i++)
    {
        T3 t;
        if (loose(lines[i], "", t[0]) && loose(lines[i + 1], "", t[1]) && loose(lines[i + 2], "", t[2])) c.anyTriple.push_back(t);
    }
    // strict (blanks other than space, tab, carriage return and line feed are not promised)
    size_t i = 0;
    if (s.find_first_of("\v\f") != std::string::npos) return c;
    if (lines.empty() || lines[0].empty() || lines[0][0] != "solid") return c;
    for (i = 1; i < lines.size();)
    {
        auto& w = lines[i];
        if (w.size() >= 1 && w[0] == "endsolid")
        {
            c.wellFormed = i + 1 == lines.size();
            return c;
        }
        Facet f;
        if (w.size() != 5 || w[0] != "facet" || w[1] != "normal" || !number(w[2], f.n[0]) || !number(w[3], f.n[1]) || !number(w[4], f.n[2])) return c;
        f.hasNormal = raws[i].find("facet normal") != std::string::npos; // separated otherwise: not promised
        if (i + 6 >= lines.size()) return c;
        if (lines[i + 1] != std::vector<std::string>{"outer", "loop"} || lines[i + 5] != std::vector<std::string>{"endloop"} || lines[i + 6] != std::vector<std::string>{"endfacet"}) return c;
        for (int k = 0; k < 3; k++)
            if (!vertex(lines[i + 2 + (size_t)k], f.t[(size_t)k])) return c;
        c.facets.push_back(f);
        i += 7;
    }
    return c;
}
static Contained parseBin(const std::string& s)
{
    Contained c;
    if (s.size() < 84) return c;
    unsigned n;
    memcpy(&n, s.data() + 80, 4);
    size_t off = 84;
    unsigned i = 0;
    for (; i < n && off + 48 <= s.size(); i++, off += 50)
    {
        float v[12];
        memcpy(v, s.data() + off, 48);
        Facet f;
        bool fin = true;
        for (int k = 0; k < 12; k++)
        {
            if (k < 3) f.n[(size_t)k] = v[k];
            else f.t[(size_t)(k - 3) / 3][(size_t)(k % 3)] = v[k];
            if (k >= 3) fin = fin && std::isfinite(v[k]);
        }
        if (!std::isfinite(f.n[0] + f.n[1] + f.n[2])) f.hasNormal = false;
        if (!fin) break;
        c.facets.push_back(f);
        c.anyTriple.push_back(f.t);
    }
    c.wellFormed = i == n;
    return c;
}
static void damaged(mc::Run& r, const std::string& orig, const std::string& data, bool binary, How how, bool textWithEnd, size_t whole)
{
    Contained c = binary ? parseBin(data) : parseText(data);
    TriMeshModelPtr m(new TriMeshModel());
    bool ok = false, thrown = false;
    try
    {
        ok = readIt(r, data, binary, how, m);
    }
    catch (const std::exception& e)
    {
        thrown = true;
        r.note("exception %s", e.what());
    }
    r.check(!thrown, "a damaged file raises an exception instead of being refused", "%zu bytes", data.size());
    r.compared();
    std::string kind = binary ? "binary" : "text";
    // a .stl file counts as binary if its size fits
    bool asText = binary && how != STREAM && how != STLTYPE && [&] {
        if (data.size() < 84) return true;
        unsigned n;
        memcpy(&n, data.data() + 80, 4);
        return 84 + (unsigned long long)n * 50 != data.size();
    }();
    if (c.wellFormed && !asText)
    {
        r.outcome("well formed after all");
        exactly(r, c.facets, *m, ok, 1, kind.c_str());
        r.state(hash(*m, ok));
        return;
    }
    if (ok)
    {
        for (auto& t : trianglesOf(r, *m))
        {
            bool in = false;
            for (auto& x : c.anyTriple)
            {
                bool e = true;
                for (int k = 0; k < 3; k++) e = e && same(t[(size_t)k], x[(size_t)k]);
                in = in || e;
            }
            r.check(in, strf("a triangle that is not in the damaged %s file is read", kind.c_str()), "%s", show(t).c_str());
        }
        r.check(m->faces.size() <= whole, strf("a damaged %s file yields more triangles than the original", kind.c_str()), "%zu", m->faces.size());
        // a file that announces more triangles than it holds must not pass as complete
        if (binary && !asText)
        {
            unsigned n = 0;
            if (data.size() >= 84) memcpy(&n, data.data() + 80, 4);
            r.check(data.size() >= 84 && m->faces.size() <= n && c.wellFormed, "an incomplete binary file is read as if it were complete", "%zu bytes", data.size());
        }
    }
    (void)orig;
    (void)textWithEnd;
    r.outcome(ok ? "partly read" : "refused");
    r.state(hash(*m, ok));
}
static void truncated(mc::Run& r)
{
    bool binary = r.flip("binary");
    How how = (How)r.choose(3, "how");
    int n = 1 + r.choose(r.thorough ? 4 : 2, "facets");
    Fmt f;
    f.indent = r.choose(2, "indent");
    if (binary && f.indent) r.prune();
    std::string data = binary ? bin(sample(n), "solid header") : text(sample(n), f);
    int fan = 32, blk = r.choose(fan, "block");
    int lo = (int)(data.size() * (size_t)blk / (size_t)fan), hi = (int)(data.size() * (size_t)(blk + 1) / (size_t)fan);
    int cut = lo + r.choose(hi - lo, "bytes");
    r.at("truncated %s", binary ? "binary" : "text");
    r.step("read the first %d of %zu bytes", cut, data.size());
    damaged(r, data, data.substr(0, (size_t)cut), binary, how, false, (size_t)n);
}
static void altered(mc::Run& r)
{
    bool binary = r.flip("binary");
    int n = r.thorough ? 2 : 1;
    How how = r.flip("file") ? STL : STREAM;
    std::string data = binary ? bin(sample(n), "solid header") : text(sample(n));
    int fan = 32, blk = r.choose(fan, "block");
    int lo = (int)(data.size() * (size_t)blk / (size_t)fan), hi = (int)(data.size() * (size_t)(blk + 1) / (size_t)fan);
    int pos = lo + r.choose(hi - lo, "position");
    int val;
    if (r.thorough) val = r.choose(256, "value");
    else
    {
        static const std::vector<int> vt = {0, ' ', '\n', '\t', '\r', '0', '9', '.', '-', '+', 'e', 'o', 'v', 'n', 'x', 'F', 255, -1, -2};
        static const std::vector<int> vb = {0, 1, 2, 3, 0x20, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff, -1, -2};
        val = r.pick(binary ? vb : vt, "value");
    }
    std::string d = data;
    if (val == -1) d.erase((size_t)pos, 1);
    else if (val == -2) d.insert((size_t)pos, 1, d[(size_t)pos]);
    else d[(size_t)pos] = (char)val;
    r.at("altered %s", binary ? "binary" : "text");
    r.step("read with byte %d changed to %d", pos, val);
    damaged(r, data, d, binary, how, true, (size_t)n);
}
// ------------------------------------------------------------ merging of close corners
static void merging(mc::Run& r)
{
    bool binary = r.flip("binary");
    float eps = r.flip("eps") ? 0.01f : 0;
    // two triangles sharing an edge; every shared corner of the second one is displaced a little
    std::vector<Facet> fs = {{{{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}}, {{0, 0, 1}}}, {{{{1, 0, 0}, {1, 1, 0}, {0, 1, 0}}}, {{0, 0, 1}}}};
    const float d[4] = {0, 0.001f, -0.001f, 0.5f};
    int moved = 0;
    for (int k : {0, 2})
    {
        float dx = d[r.choose(4, "dx")], dz = d[r.choose(4, "dz")];
        fs[1].t[(size_t)k][0] += dx;
        fs[1].t[(size_t)k][2] += dz;
        bool one = eps > 0 ? std::fabs(dx) < eps && std::fabs(dz) < eps : dx == 0 && dz == 0;
        moved += !one;
    }
    TriMeshModelPtr m(new TriMeshModel());
    r.step("read with threshold %g", eps);
    bool ok = readIt(r, binary ? bin(fs) : text(fs), binary, STREAM, m, 1, eps > 0 ? eps : -1);
    r.compared();
    r.check(ok && m->faces.size() == 2, "two triangles with close corners are not both read", "%zu", m->faces.size());
    r.check((int)m->vertices.size() == 4 + moved, "corners closer than the threshold are not merged, or others are", "%s: %zu vertices instead of %d", binary ? "binary" : "text", m->vertices.size(), 4 + moved);
    auto t = trianglesOf(r, *m);
    for (size_t i = 0; i < 2; i++)
        for (size_t k = 0; k < 3; k++)
            for (size_t c = 0; c < 3; c++) r.check(std::fabs(t[i][k][c] - fs[i].t[k][c]) <= eps * 1.0001f, "a corner is further off than the threshold", "%s instead of %s", show(t[i]).c_str(), show(fs[i].t).c_str());
    r.state(hash(*m, ok));
}
// ------------------------------------------------------------ writing
static std::string content(const std::string& f)
{
    std::ifstream in(f.c_str(), std::ios::binary);
    std::ostringstream s;
    s << in.rdbuf();
    return s.str();
}
static void writing(mc::Run& r)
{
    static const std::vector<P3> pl = {{0, 0, 0}, {1234.5f, -0.1f, 1e-5f}, {1234.5001f, -0.1f, 1e-5f}, {0, 1, 0}, {1.0f / 3, 1e6f, -1e6f}};
    TriMeshModelPtr m(new TriMeshModel());
    std::vector<Facet> fs;
    int n = 1 + r.choose(r.thorough ? 3 : 2, "facets");
    for (int i = 0; i < n; i++)
    {
        Facet f;
        for (auto& p : f.t) p = pl[(size_t)r.choose(i < 2 ? (int)pl.size() : 3, "corner")];
        Eigen::Vector3f v[3];
        for (int k = 0; k < 3; k++) v[k] = Eigen::Vector3f(f.t[(size_t)k][0], f.t[(size_t)k][1], f.t[(size_t)k][2]);
        f.n = P3{0, 0.6f, -0.8f};
        f.hasNormal = true;
        m->addTriangleWithFace(v[0], v[1], v[2], Eigen::Vector3f(0, 0.6f, -0.8f));
        fs.push_back(f);
    }
    const float sc[2] = {1, 0.25f};
    float s = sc[r.choose(2, "scaling")];
    std::string fn = mc::scratch() + "/out.stl";
    r.step("write %d triangles, scaling %g", n, s);
    bool ok = ObjectIO::writeSTL(m, fn, "object", s);
    r.check(ok, "writing a mesh fails", "%d", n);
    for (int up = 0; up < 2; up++)
    {
        TriMeshModelPtr g(new TriMeshModel());
        STLReader rd;
        rd.setScaling(up ? 1 / s : 1);
        bool ok2 = rd.read(fn, g);
        std::vector<Facet> want = fs;
        for (auto& f : want) f.t = scaled(f.t, up ? 1 : s);
        // the corners of the written mesh, in floats: exact with 9 digits
        exactly(r, want, *g, ok2, 1, "written");
    }
    r.state(hash(*m, ok));
    unlink(fn.c_str());
}
static void failingWrites(mc::Run& r)
{
    int n = 1 + r.choose(2, "facets");
    auto fs = sample(n);
    TriMeshModelPtr m(new TriMeshModel());
    for (auto& f : fs) m->addTriangleWithFace(Eigen::Vector3f(f.t[0][0], f.t[0][1], f.t[0][2]), Eigen::Vector3f(f.t[1][0], f.t[1][1], f.t[1][2]), Eigen::Vector3f(f.t[2][0], f.t[2][1], f.t[2][2]));
    std::string fn = mc::scratch() + "/limited.stl";
    signal(SIGXFSZ, SIG_IGN);
    r.check(ObjectIO::writeSTL(m, fn, "object", 1), "writing a mesh fails", "%d", n);
    std::string all = content(fn);
    int fan = 32, blk = r.choose(fan, "block");
    int lo = (int)((all.size() + 2) * (size_t)blk / (size_t)fan), hi = (int)((all.size() + 2) * (size_t)(blk + 1) / (size_t)fan);
    int lim = lo + r.choose(hi - lo, "limit");
    rlimit old;
    getrlimit(RLIMIT_FSIZE, &old);
    rlimit l = old;
    l.rlim_cur = (rlim_t)lim;
    r.step("write at most %d bytes", lim);
    setrlimit(RLIMIT_FSIZE, &l);
    bool ok = ObjectIO::writeSTL(m, fn, "object", 1);
    setrlimit(RLIMIT_FSIZE, &old);
    std::string got = content(fn);
    r.compared();
    r.check(ok == (lim >= (int)all.size()), ok ? "an incomplete mesh file is reported as written" : "a complete mesh file is reported as not written", "%zu of %zu bytes", got.size(), all.size());
    r.check(!ok || got == all, "a reported mesh file is incomplete", "%zu of %zu", got.size(), all.size());
    r.check(!ObjectIO::writeSTL(m, mc::scratch() + "/no such dir/x.stl", "object", 1), "writing into a missing directory reports success", "%d", n);
    r.check(!ObjectIO::writeSTL(TriMeshModelPtr(), fn, "object", 1), "writing no mesh reports success", "%d", n);
    unlink(fn.c_str());
    r.state(mc::Hash().i(ok).i((long long)got.size()));
    r.outcome(ok ? "written" : "refused");
}
static void missing(mc::Run& r)
{
    static const std::vector<std::string> names = {"nothing.stl", "nothing.stla", "nothing.stlb", "", "x", "a.obj", "dir.stl"};
    std::string nm = r.pick(names, "name");
    if (nm == "a.obj") spill(mc::scratch() + "/a.obj", text(sample(1)));
    TriMeshModelPtr m(new TriMeshModel());
    STLReader rd;
    r.step("read %s", nm.c_str());
    r.check(!rd.read(nm.empty() || nm == "x" ? nm : mc::scratch() + "/" + nm, m), "a file that does not exist or is no mesh file is reported as read", "%s", nm.c_str());
    r.compared();
    r.check(m->faces.empty(), "triangles come from nowhere", "%zu", m->faces.size());
    // no file handle is left behind
    std::string fn = mc::scratch() + "/small.stl";
    spill(fn, r.flip("short") ? "solid x\nendsolid x\n" : text(sample(2)));
    for (int i = 0; i < 1500; i++)
    {
        TriMeshModelPtr q(new TriMeshModel());
        try
        {
            if (!rd.read(fn, q)) r.fail("a correct file cannot be read repeatedly", "%d", i);
        }
        catch (const std::exception& e)
        {
            r.fail("reading a correct file raises an exception", "%s", e.what());
        }
    }
    unlink(fn.c_str());
}
int main(int argc, char** argv)
{
    mc::setup([] { silence(); });
    mc::suite("meshes", meshes, 4);
    mc::suite("formats", formats, 4);
    mc::suite("truncated", truncated, 3);
    mc::suite("altered", altered, 3);
    mc::suite("merging", merging, 2);
    mc::suite("writing", writing, 3);
    mc::suite("failing writes", failingWrites, 2);
    mc::suite("missing", missing, 1);
    return mc::main(argc, argv);
}
