// What sm_opencv uses of OpenCV 2.4's core: matrix headers over shared, counted pixels.
#ifndef STUB_OPENCV_CORE_HPP
#define STUB_OPENCV_CORE_HPP
#include <algorithm>
#include <cstddef>
#include <vector>
#include <cstring>
#include <exception>
#include <new>
#include <string>
typedef unsigned char uchar;
#define CV_8U 0
#define CV_8S 1
#define CV_16U 2
#define CV_16S 3
#define CV_32S 4
#define CV_32F 5
#define CV_64F 6
#define CV_MAT_TYPE(f) ((f) & 0xfff)
#define CV_MAT_DEPTH(f) ((f) & 7)
#define CV_MAT_CN(f) ((((f) & 0xff8) >> 3) + 1)
#define CV_MAKETYPE(d, c) ((d) + (((c)-1) << 3))
#define CV_8UC1 CV_MAKETYPE(CV_8U, 1)
#define CV_8UC3 CV_MAKETYPE(CV_8U, 3)
#define CV_32FC1 CV_MAKETYPE(CV_32F, 1)
#define CV_64FC1 CV_MAKETYPE(CV_64F, 1)
#define CV_ELEM_SIZE1(t) ((size_t)(0x08442211u >> (CV_MAT_DEPTH(t) * 4)) & 15)
#define CV_ELEM_SIZE(t) (CV_MAT_CN(t) * CV_ELEM_SIZE1(t))
#define CV_Assert(e) do { if (!(e)) throw cv::Exception(#e); } while (0)
namespace cv {
class Exception : public std::exception {
 public:
  explicit Exception(const char* w) : w_(w) {}
  const char* what() const throw() { return w_; }
 private:
  const char* w_;
};
template <typename T> struct Point_ { T x, y; Point_() : x(), y() {} Point_(T a, T b) : x(a), y(b) {} };
typedef Point_<float> Point2f;
struct Size { int width, height; Size() : width(), height() {} Size(int w, int h) : width(w), height(h) {} int area() const { return width * height; } bool operator==(const Size& o) const { return width == o.width && height == o.height; } bool operator!=(const Size& o) const { return !(*this == o); } };
struct Range { int start, end; Range(int a, int b) : start(a), end(b) {} static Range all() { return Range(-2147483647 - 1, 2147483647); } };
struct Rect { int x, y, width, height; Rect(int a, int b, int c, int d) : x(a), y(b), width(c), height(d) {} };
class Mat {
 public:
  enum { CONTINUOUS_FLAG = 1 << 14, AUTO_STEP = 0 };
  struct MStep { size_t p[3]; operator size_t() const { return p[0]; } size_t operator[](int i) const { return p[i]; } };
  struct MSize { int p[3]; int operator[](int i) const { return p[i]; } Size operator()() const { return Size(p[1], p[0]); } bool operator==(const MSize& o) const { return p[0] == o.p[0] && p[1] == o.p[1] && p[2] == o.p[2]; } bool operator!=(const MSize& o) const { return !(*this == o); } };
  int flags, dims, rows, cols;
  uchar* data;
  MStep step;
  MSize size;
  Mat() { zero(); }
  Mat(int r, int c, int t) { zero(); create(r, c, t); }
  Mat(Size s, int t) { zero(); create(s, t); }
  Mat(int n, const int* sizes, int t) { zero(); create(n, sizes, t); }
  Mat(int r, int c, int t, void* d, size_t st = AUTO_STEP) { zero(); flags = CV_MAT_TYPE(t); dims = 2; rows = size.p[0] = r; cols = size.p[1] = c; step.p[1] = elemSize(); step.p[0] = st ? st : c * elemSize(); data = (uchar*)d; flags |= step.p[0] == c * elemSize() || r == 1 ? (int)CONTINUOUS_FLAG : 0; }
  Mat(const Mat& m) : flags(m.flags), dims(m.dims), rows(m.rows), cols(m.cols), data(m.data), step(m.step), size(m.size), count_(m.count_) { if (count_) ++count_->count; }
  Mat(const Mat& m, const Rect& r) : flags(m.flags), dims(2), rows(r.height), cols(r.width), data(m.data + r.y * m.step.p[0] + r.x * m.elemSize()), step(m.step), size(m.size), count_(m.count_) {
    if (!(m.dims <= 2 && r.x >= 0 && r.y >= 0 && r.width >= 0 && r.height >= 0 && r.x + r.width <= m.cols && r.y + r.height <= m.rows)) throw Exception("roi");
    if (count_) ++count_->count;
    size.p[0] = rows; size.p[1] = cols;
    if (r.width < m.cols) flags &= ~(int)CONTINUOUS_FLAG;
    if (r.height == 1) flags |= CONTINUOUS_FLAG;
    if (!rows || !cols) { int t = type(); release(); rows = cols = size.p[0] = size.p[1] = 0; flags = t | CONTINUOUS_FLAG; }
  }
  ~Mat() { release(); }
  Mat& operator=(const Mat& m) {
    if (this != &m) {
      if (m.count_) ++m.count_->count;
      release();
      flags = m.flags; dims = m.dims; rows = m.rows; cols = m.cols; data = m.data; step = m.step; size = m.size; count_ = m.count_;
    }
    return *this;
  }
  Mat operator()(const Rect& r) const { return Mat(*this, r); }
  Mat row(int y) const { return Mat(*this, Rect(0, y, cols, 1)); }
  Mat col(int x) const { return Mat(*this, Rect(x, 0, 1, rows)); }
  Mat rowRange(int a, int b) const { return Mat(*this, Rect(0, a, cols, b - a)); }
  Mat colRange(int a, int b) const { return Mat(*this, Rect(a, 0, b - a, rows)); }
  void create(int r, int c, int t) {
    if (dims <= 2 && rows == r && cols == c && type() == CV_MAT_TYPE(t) && data) return;
    int s[] = {r, c}; create(2, s, t);
  }
  void create(Size s, int t) { create(s.height, s.width, t); }
  void create(int n, const int* s, int t) {
    t = CV_MAT_TYPE(t);
    if (data && (n == dims || (n == 1 && dims <= 2)) && t == type()) { int i = 0; while (i < n && size.p[i] == s[i]) i++; if (i == n) return; }
    release();
    if (n < 1 || n > 3) throw Exception("dims");
    for (int i = 0; i < n; i++) if (s[i] < 0) throw Exception("s >= 0");
    flags = t | CONTINUOUS_FLAG; dims = n;
    size_t total = elemSize();
    for (int i = n - 1; i >= 0; i--) { size.p[i] = s[i]; step.p[i] = total; if (s[i] && total > ((size_t)1 << 60) / s[i]) throw Exception("Insufficient memory"); total *= s[i]; }
    rows = n > 2 ? -1 : size.p[0]; cols = n > 2 ? -1 : size.p[1];
    if (total) {
      Pixels* k = new (std::nothrow) Pixels; uchar* d = !k || total > ((size_t)1 << 28) ? nullptr : (uchar*)operator new(total, std::nothrow);
      if (!d) { delete k; zero(); throw Exception("Insufficient memory"); }
      k->count = 1; k->start = d; data = d; count_ = k;
    }
  }
  void release() { if (count_ && --count_->count == 0) { operator delete(count_->start); delete count_; } data = nullptr; count_ = nullptr; rows = cols = 0; size.p[0] = size.p[1] = size.p[2] = 0; }
  Mat clone() const { Mat m; copyTo(m); return m; }
  void copyTo(Mat& m) const {
    if (dims > 2) { m.create(dims, size.p, type()); if (total()) memcpy(m.data, data, total() * elemSize()); return; }
    m.create(rows, cols, type());
    for (int r = 0; r < rows; r++) memcpy(m.ptr(r), ptr(r), cols * elemSize());
  }
  bool isContinuous() const { return (flags & CONTINUOUS_FLAG) != 0; }
  bool empty() const { return !data || total() == 0; }
  size_t total() const { if (dims <= 2) return (size_t)rows * cols; return (size_t)size.p[0] * size.p[1] * size.p[2]; }
  int type() const { return CV_MAT_TYPE(flags); }
  int depth() const { return CV_MAT_DEPTH(flags); }
  int channels() const { return CV_MAT_CN(flags); }
  size_t elemSize1() const { static const size_t w[] = {1, 1, 2, 2, 4, 4, 8, 0}; return w[depth()]; }
  size_t elemSize() const { return elemSize1() * channels(); }
  uchar* ptr(int r = 0) { return data + step.p[0] * r; }
  const uchar* ptr(int r = 0) const { return data + step.p[0] * r; }
  size_t step1(int i = 0) const { return step.p[i] / elemSize1(); }
  template <typename T> T* ptr(int r = 0) { return (T*)ptr(r); }
  template <typename T> const T* ptr(int r = 0) const { return (const T*)ptr(r); }
  template <typename T> T& at(int r, int c) { return ((T*)ptr(r))[c]; }
  template <typename T> const T& at(int r, int c) const { return ((const T*)ptr(r))[c]; }
  Mat operator()(Range y, Range x) const { if (y.start < 0) y = Range(0, rows); if (x.start < 0) x = Range(0, cols); return Mat(*this, Rect(x.start, y.start, x.end - x.start, y.end - y.start)); }
 private:
  struct Pixels { int count; uchar* start; };
  Pixels* count_;
  void zero() { flags = CONTINUOUS_FLAG; dims = 0; rows = cols = 0; data = nullptr; count_ = nullptr; memset(&step, 0, sizeof step); memset(&size, 0, sizeof size); }
};
}  // namespace cv
#endif
