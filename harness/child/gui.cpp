// The window of traxplayer: a user who draws the rectangles given in TRAXV_DRAW ("x1 y1 x2 y2;" each, "n;" for none)
// and confirms; every image that is shown otherwise is appended to the file TRAXV_SHOWN.
// The video is read from numbered image files, so that no codecs or devices of the system take part.
#include <opencv2/highgui/highgui.hpp>
#include <opencv2/imgcodecs.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
namespace cv {
static MouseCallback callback = nullptr; static void *user = nullptr; static int step = 0, x1, y1, x2, y2; static bool draws = false;
void namedWindow(const String &, int) {}
void setMouseCallback(const String &, MouseCallback f, void *data) {
    callback = f; user = data; step = 0; draws = false; if (!f) return;
    static const char *s = getenv("TRAXV_DRAW"); if (!s) return;
    draws = sscanf(s, "%d %d %d %d", &x1, &y1, &x2, &y2) == 4;
    const char *e = strchr(s, ';'); s = e ? e + 1 : nullptr;
}
int waitKey(int) {
    if (!callback) return -1;
    if (!draws) return ' ';
    switch (step++) {
    case 0: callback(EVENT_MOUSEMOVE, x1, y1, 0, user); return -1;
    case 1: callback(EVENT_LBUTTONDOWN, x1, y1, 0, user); return -1;
    case 2: callback(EVENT_MOUSEMOVE, (x1 + x2) / 2, (y1 + y2) / 2, 0, user); return -1;
    case 3: callback(EVENT_LBUTTONUP, x2, y2, 0, user); return -1;
    default: return ' ';
    }
}
void imshow(const String &, InputArray a) {
    const char *f = getenv("TRAXV_SHOWN"); if (callback || !f) return;
    Mat m = a.getMat(); FILE *o = fopen(f, "ab"); if (!o) return;
    fprintf(o, "%d %d %d\n", m.cols, m.rows, m.type()); for (int y = 0; y < m.rows; y++) fwrite(m.ptr(y), m.elemSize(), m.cols, o); fclose(o);
}

static std::string pattern; static int count = 0, position = 0;
static std::string file(int i) { char b[4096]; snprintf(b, sizeof b, pattern.c_str(), i); return b; }
VideoCapture::VideoCapture() {}
VideoCapture::VideoCapture(const String &f, int a) { open(f, a); }
VideoCapture::~VideoCapture() {}
bool VideoCapture::open(const String &f, int) {
    pattern = f; count = position = 0;
    for (FILE *x; (x = fopen(file(count).c_str(), "rb")); count++) fclose(x);
    return isOpened();
}
bool VideoCapture::open(const String &f, int a, const std::vector<int> &) { return open(f, a); }
bool VideoCapture::open(int, int) { return false; }
bool VideoCapture::open(int, int, const std::vector<int> &) { return false; }
bool VideoCapture::isOpened() const { return count > 0; }
void VideoCapture::release() { count = position = 0; }
bool VideoCapture::grab() { if (position >= count) return false; position++; return true; }
bool VideoCapture::retrieve(OutputArray o, int) { if (!position) return false; imread(file(position - 1), IMREAD_COLOR).copyTo(o); return true; }
bool VideoCapture::read(OutputArray o) { if (grab()) return retrieve(o); o.release(); return false; }
VideoCapture &VideoCapture::operator>>(Mat &m) { read(m); return *this; }
VideoCapture &VideoCapture::operator>>(UMat &m) { read(m); return *this; }
bool VideoCapture::set(int p, double v) { if (p != CAP_PROP_POS_FRAMES || v < 0 || v > count) return false; position = (int) v; return true; }
double VideoCapture::get(int p) const { return p == CAP_PROP_FRAME_COUNT ? count : p == CAP_PROP_POS_FRAMES ? position : 0; }
}
