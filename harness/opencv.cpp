// C32: conversions to and from OpenCV types, and drawing.
#include "cppgen.hpp"
#include <trax/opencv.hpp>
#include <opencv2/imgcodecs.hpp>
#include <unistd.h>
using namespace pbt;
using namespace gen;
using namespace cppgen;

// ------------------------------------------------------------------ matrices
struct MMat { int w = 1, h = 1, type = CV_8UC1; std::string s; };     // pixels row by row
static size_t elem(int type) { return CV_ELEM_SIZE(type); }
static MMat mat(Tape &t, int type, int max = 20) { MMat m; m.type = type; m.w = 1 + (int) t.below(max); m.h = 1 + (int) t.below(max); m.s = bytes(t, (size_t) m.w * m.h * elem(type)); return m; }
static cv::Mat lay(const MMat &m, int k) {          // the same pixels in several memory layouts
    cv::Mat a(m.h, m.w, m.type); for (int y = 0; y < m.h; y++) memcpy(a.ptr(y), m.s.data() + (size_t) y * m.w * elem(m.type), m.w * elem(m.type));
    if (k == 0) return a;
    cv::Mat big(m.h + 5, m.w + 7, m.type, cv::Scalar::all(77)); cv::Mat in = big(cv::Rect(3, 2, m.w, m.h)); a.copyTo(in);
    if (k == 1) return in;                           // a part of a larger matrix, which it keeps alive
    cv::Mat wide(m.h, m.w + 4, m.type, cv::Scalar::all(99)); cv::Mat left = wide.colRange(0, m.w); a.copyTo(left); return left;
}
static const char *LAYOUT[] = {"continuous", "window", "columns"};
static MMat look(const cv::Mat &a) { MMat m; m.w = a.cols; m.h = a.rows; m.type = a.type(); for (int y = 0; y < a.rows; y++) m.s.append((const char *) a.ptr(y), a.cols * elem(a.type())); return m; }
static std::string show(const MMat &m) { return cat(m.w, "x", m.h, " type ", m.type, " ", quote(m.s, 40)); }
static void same(const MMat &want, const MMat &got, const char *what) {
    if (want.w != got.w || want.h != got.h || want.type != got.type) fail(cat(what, ": form of the matrix differs"), cat("wanted ", show(want), ", got ", show(got)));
    if (want.s != got.s) { size_t i = 0; while (want.s[i] == got.s[i]) i++; i /= elem(want.type); fail(cat(what, ": pixels of the matrix differ"), cat("first at ", i % want.w, ",", i / want.w, "; wanted ", show(want), ", got ", show(got))); }
}
static int mat_type(int format) { return format == TRAX_IMAGE_MEMORY_RGB ? CV_8UC3 : format == TRAX_IMAGE_MEMORY_GRAY16 ? CV_16UC1 : CV_8UC1; }
static int image_format(int type) { return type == CV_8UC3 ? TRAX_IMAGE_MEMORY_RGB : type == CV_16UC1 ? TRAX_IMAGE_MEMORY_GRAY16 : TRAX_IMAGE_MEMORY_GRAY8; }
static std::string swapped(std::string s, int type) { if (type == CV_8UC3) for (size_t i = 0; i + 2 < s.size(); i += 3) std::swap(s[i], s[i + 2]); return s; }

static void images(Tape &t, Ctx &c) {
    switch (t.weighted({4, 4, 2, 1, 1})) {
    case 0: {                                        // from an image
        MImage m = image(t, TRAX_IMAGE_MEMORY, false); c.note(gen::show(m)); cv::Mat r;
        { trax::Image i = build(m); r = trax::image_to_mat(i); gen::same(m, look(i), "converted image"); }
        MMat w; w.w = m.w; w.h = m.h; w.type = mat_type(m.format); w.s = swapped(m.s, w.type); same(w, look(r), "image to matrix");
        trax::Image j = trax::mat_to_image(r); gen::same(m, look(j), "image to matrix and back"); r.setTo(cv::Scalar::all(5)); gen::same(m, look(j), "image after a change of the matrix");
        c.tag(m.format == TRAX_IMAGE_MEMORY_RGB ? "colour" : "grey"); break; }
    case 1: {                                        // from a matrix
        MMat m = mat(t, t.pick(std::vector<int>{CV_8UC3, CV_8UC1, CV_16UC1})); int k = (int) t.below(3); c.note(cat(show(m), " ", LAYOUT[k])); cv::Mat a = lay(m, k);
        trax::Image i = trax::mat_to_image(a); same(m, look(a), "converted matrix"); MImage w; w.type = TRAX_IMAGE_MEMORY; w.w = m.w; w.h = m.h; w.format = image_format(m.type); w.s = swapped(m.s, m.type);
        gen::same(w, look(i), "matrix to image"); a.setTo(cv::Scalar::all(5)); gen::same(w, look(i), "image after a change of the matrix"); cv::Mat b = trax::image_to_mat(i); i = trax::Image(); same(m, look(b), "matrix to image and back");
        c.tag(m.type == CV_8UC3 ? "colour" : "grey"); if (k) c.tag("window of a matrix"); break; }
    case 2: {                                        // encoded and stored
        MMat m = mat(t, t.flip() ? CV_8UC3 : CV_8UC1); bool file = t.flip(); c.note(cat(file ? "file " : "buffer ", show(m))); cv::Mat a = lay(m, 0), r;
        if (file) { std::string p = cat(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp", "/traxcv-", getpid(), ".png"); cv::imwrite(p, a); r = trax::image_to_mat(trax::Image::create_path(p)); unlink(p.c_str()); }
        else { std::vector<uchar> b; cv::imencode(".png", a, b); r = trax::image_to_mat(trax::Image::create_buffer((int) b.size(), (const char *) b.data())); }
        MMat w = m; if (m.type == CV_8UC1 && r.channels() == 3) { w.type = CV_8UC3; w.s.clear(); for (char x : m.s) w.s.append(3, x); }
        same(w, look(r), file ? "image file" : "encoded image"); c.tag("encoded"); break; }
    case 3: {                                        // types without an image format
        MMat m = mat(t, t.pick(std::vector<int>{CV_32FC1, CV_8UC4, CV_64FC1, CV_32SC1, CV_16UC3, CV_8UC2}), 5); c.note(show(m)); bool thrown = false;
        try { trax::mat_to_image(lay(m, 0)); } catch (const std::exception &) { thrown = true; }
        check(thrown, "matrix of an unsupported type accepted", show(m)); c.tag("unsupported type"); break; }
    default: {
        trax::Image i = t.flip() ? trax::Image() : trax::Image::create_url("http://localhost/a.png"); check(trax::image_to_mat(i).empty(), "an image without pixels gives a matrix"); c.tag("no pixels"); }
    }
}

// ------------------------------------------------------------------ regions
static MRegion near(Tape &t) { MRegion m = mask(t, 24); m.mx = (int) t.range(-12, 30); m.my = (int) t.range(-12, 30); return m; }
static void regions(Tape &t, Ctx &c) {
    switch (t.weighted({2, 2, 3, 4, 4, 1})) {
    case 0: { cv::Rect r((int) t.range(-3000, 3000), (int) t.range(-3000, 3000), (int) t.range(0, 3000), (int) t.range(0, 3000)); c.note(cat("rect ", r.x, ",", r.y, " ", r.width, "x", r.height)); MRegion w; w.type = TRAX_REGION_RECTANGLE; w.x = (float) r.x; w.y = (float) r.y; w.w = (float) r.width; w.h = (float) r.height;
        trax::Region g = trax::rect_to_region(r); gen::same(w, look(g), "rectangle to region"); cv::Rect b = trax::region_to_rect(g); check(b == r, "rectangle to region and back differs", cat(b.x, ",", b.y, " ", b.width, "x", b.height)); c.tag("rectangle"); break; }
    case 1: { MRegion m = t.flip() ? rectangle(t) : t.flip() ? polygon(t) : near(t); if (m.type == TRAX_REGION_MASK && m.bits.find((char) 1) == std::string::npos) m.bits[0] = 1; c.note(gen::show(m)); trax::Region g = build(m); cv::Rect b = trax::region_to_rect(g); gen::same(m, look(g), "converted region");
        float x = m.x, y = m.y, w = m.w, h = m.h; if (m.type != TRAX_REGION_RECTANGLE) { trax::Region q = g.convert(TRAX_REGION_RECTANGLE); q.get(&x, &y, &w, &h); }
        check(std::fabs(b.x - x) <= 0.5 && std::fabs(b.y - y) <= 0.5 && std::fabs(b.width - w) <= 0.5 && std::fabs(b.height - h) <= 0.5, "a region gives another rectangle", cat(b.x, ",", b.y, " ", b.width, "x", b.height, " for ", x, ",", y, " ", w, "x", h)); c.tag("rectangle of a region"); break; }
    case 2: { MRegion m = t.chance(2, 3) ? polygon(t) : t.flip() ? rectangle(t) : special(t); c.note(gen::show(m)); trax::Region g = build(m); std::vector<cv::Point2f> p = trax::region_to_points(g); gen::same(m, look(g), "converted region");
        MRegion w = m; if (m.type == TRAX_REGION_SPECIAL) w.pts.clear(); else if (m.type != TRAX_REGION_POLYGON) w = look(g.convert(TRAX_REGION_POLYGON));
        check(p.size() == w.pts.size(), "number of points differs", cat(p.size())); for (size_t i = 0; i < p.size(); i++) check(p[i].x == w.pts[i].first && p[i].y == w.pts[i].second, "points differ", cat("point ", i));
        if (p.size()) { trax::Region q = trax::points_to_region(p); MRegion v; v.type = TRAX_REGION_POLYGON; v.pts = w.pts; gen::same(v, look(q), "points to region"); } c.tag("points"); break; }
    case 3: { MRegion m = near(t); c.note(gen::show(m)); trax::Region g = build(m); cv::Mat r = trax::region_to_mat(g); gen::same(m, look(g), "converted region"); g = trax::Region();
        int W = std::max(0, m.mx + m.mw), H = std::max(0, m.my + m.mh); if (W == 0 || H == 0) { check(r.empty(), "mask outside of the image gives pixels"); c.tag("outside"); break; }
        check(r.type() == CV_8UC1 && r.cols == W && r.rows == H, "matrix of a mask has another form", cat(r.cols, "x", r.rows, " type ", r.type(), ", wanted ", W, "x", H));
        for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { int i = x - m.mx, j = y - m.my; bool on = i >= 0 && j >= 0 && i < m.mw && j < m.mh && m.bits[(size_t) j * m.mw + i]; check((r.at<uchar>(y, x) != 0) == on, "pixel of a mask differs", cat(x, ",", y, " is ", (int) r.at<uchar>(y, x))); }
        MRegion w; w.type = TRAX_REGION_MASK; w.mw = W; w.mh = H; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) w.bits += (char) (r.at<uchar>(y, x) != 0); gen::same(w, look(trax::mat_to_region(r)), "mask to matrix and back"); c.tag("mask"); if (m.mx < 0 || m.my < 0) c.tag("negative offset"); break; }
    case 4: { MMat m = mat(t, CV_8UC1); int k = (int) t.below(3); for (char &x : m.s) x = (char) (x & 1 ? 255 : 0); c.note(cat(show(m), " ", LAYOUT[k])); cv::Mat a = lay(m, k); trax::Region g = trax::mat_to_region(a); same(m, look(a), "converted matrix"); a.setTo(0);
        MRegion w; w.type = TRAX_REGION_MASK; w.mw = m.w; w.mh = m.h; for (char x : m.s) w.bits += (char) (x != 0); gen::same(w, look(g), "matrix to mask"); cv::Mat b = trax::region_to_mat(g); MMat q = look(b); for (char &x : q.s) x = (char) (x ? 255 : 0); same(m, q, "matrix to mask and back"); c.tag("mask"); if (k) c.tag("window of a matrix"); break; }
    default: { MMat m = mat(t, t.flip() ? CV_8UC3 : CV_32FC1, 5); bool thrown = false; try { trax::mat_to_region(lay(m, 0)); } catch (const std::exception &) { thrown = true; } check(thrown, "matrix of an unsupported type accepted as a mask"); c.tag("unsupported type"); }
    }
}

// ------------------------------------------------------------------ drawing
static void draw(Tape &t, Ctx &c) {
    int type = t.chance(1, 3) ? CV_8UC1 : CV_8UC3; MMat m = mat(t, type, 40); cv::Mat canvas = lay(m, (int) t.below(3)); cv::Mat before = canvas.clone(); cv::Scalar color((double) t.below(256), (double) t.below(256), (double) t.below(256));
    uchar col[3]; for (int k = 0; k < 3; k++) col[k] = (uchar) color[k];
    auto is = [&](const cv::Mat &a, int x, int y) { const uchar *p = a.ptr(y) + x * a.channels(); for (int k = 0; k < a.channels(); k++) if (p[k] != col[k]) return false; return true; };
    auto kept = [&](int x, int y) { return memcmp(canvas.ptr(y) + x * canvas.channels(), before.ptr(y) + x * canvas.channels(), canvas.channels()) == 0; };
    int width = t.chance(1, 3) ? -1 : 1 + (int) t.below(4); MRegion r; float margin = width < 1 ? 2 : width / 2.f + 2;
    switch (t.weighted({4, 2, 2, 1})) {
    case 0: r = near(t); break;
    case 1: r.type = TRAX_REGION_RECTANGLE; r.x = (float) t.range(-5, 45); r.y = (float) t.range(-5, 45); r.w = (float) t.range(0, 40); r.h = (float) t.range(0, 40); break;
    case 2: r.type = TRAX_REGION_POLYGON; for (int n = 3 + (width < 1 ? 0 : (int) t.below(4)), i = 0; i < n; i++) { float x = (float) t.range(-5, 45), y = (float) t.range(-5, 45); r.pts.push_back({x, y}); } break;
    default: r = special(t);
    }
    c.note(cat("draw ", gen::show(r), " width ", width, " on ", m.w, "x", m.h, type == CV_8UC1 ? " grey" : " colour"));
    trax::Region g = r.type == TRAX_REGION_SPECIAL && t.flip() ? trax::Region() : build(r); trax::draw_region(canvas, g, color, width);
    check(canvas.type() == type && canvas.rows == m.h && canvas.cols == m.w, "drawing changes the form of the canvas");
    float l = 1e9f, T = 1e9f, R = -1e9f, B = -1e9f; auto box = [&](float x, float y) { l = std::min(l, x); R = std::max(R, x); T = std::min(T, y); B = std::max(B, y); };
    if (r.type == TRAX_REGION_RECTANGLE) { box(r.x, r.y); box(r.x + r.w, r.y + r.h); }
    if (r.type == TRAX_REGION_POLYGON) for (auto &p : r.pts) box(p.first, p.second);
    int drawn = 0;
    for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
        std::string at = cat(x, ",", y); check(kept(x, y) || is(canvas, x, y), "a pixel is neither kept nor drawn", at); if (is(canvas, x, y) && !kept(x, y)) drawn++;
        if (r.type == TRAX_REGION_SPECIAL) check(kept(x, y), "a special region is drawn", at);
        else if (r.type == TRAX_REGION_MASK) { int i = x - r.mx, j = y - r.my; bool on = i >= 0 && j >= 0 && i < r.mw && j < r.mh && r.bits[(size_t) j * r.mw + i]; check(on ? is(canvas, x, y) : kept(x, y), on ? "a pixel of the mask is not drawn" : "a pixel that is not in the mask is drawn", at); }
        else {
            if (x < l - margin || x > R + margin || y < T - margin || y > B + margin) check(kept(x, y), "a pixel far from the region is drawn", at);
            bool inside = r.type == TRAX_REGION_RECTANGLE && x >= l + 1 && x <= R - 1 && y >= T + 1 && y <= B - 1;
            if (r.type == TRAX_REGION_POLYGON && r.pts.size() == 3) {
                double s[3], area = 0; for (int k = 0; k < 3; k++) { auto a = r.pts[k], b = r.pts[(k + 1) % 3]; double n = std::hypot(b.first - a.first, b.second - a.second); s[k] = n == 0 ? 0 : ((b.first - a.first) * (y - a.second) - (b.second - a.second) * (x - a.first)) / n; area = s[k]; }
                inside = (s[0] > 1.5 && s[1] > 1.5 && s[2] > 1.5) || (s[0] < -1.5 && s[1] < -1.5 && s[2] < -1.5); (void) area;
            }
            if (inside && width < 1) check(is(canvas, x, y), "a pixel inside the filled region is not drawn", at);
            if (inside && width >= 1 && r.type == TRAX_REGION_RECTANGLE && x >= l + margin && x <= R - margin && y >= T + margin && y <= B - margin) check(kept(x, y), "a pixel inside the outline is drawn", at);
        }
    }
    if (r.type == TRAX_REGION_POLYGON) for (auto &p : r.pts) { int x = (int) p.first, y = (int) p.second; if (x >= 0 && y >= 0 && x < m.w && y < m.h) check(is(canvas, x, y), "a corner of the polygon is not drawn", cat(x, ",", y)); }
    if (r.type == TRAX_REGION_RECTANGLE && r.w > 0 && r.h > 0) { int x = (int) r.x, y = (int) r.y; if (x >= 0 && y >= 0 && x < m.w && y < m.h) check(is(canvas, x, y), "the corner of the rectangle is not drawn", cat(x, ",", y)); }
    if (drawn) c.tag("drawn");
}

static void c32(Tape &t, Ctx &c) {
    static bool once = (cv::setNumThreads(0), true); (void) once;
    try { switch (t.weighted({3, 4, 3})) { case 0: images(t, c); break; case 1: regions(t, c); break; default: draw(t, c); } }
    catch (const cv::Exception &e) { fail("an OpenCV exception", e.what()); }
    c.nontrivial = true;
}
static Register r32({"C32", "one conversion to or from an OpenCV type and back, or one region drawn on a canvas; always non-trivial", c32, 20, false, 500, 8,
    {"lines may be drawn up to two pixels beside the mathematical outline", "grey encoded images may be decoded as colour images"}});
