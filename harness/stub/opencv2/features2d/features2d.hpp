// What sm_opencv uses of OpenCV 2.4's features.
#ifndef STUB_OPENCV_FEATURES2D_HPP
#define STUB_OPENCV_FEATURES2D_HPP
#include <opencv2/core/core.hpp>
namespace cv {
class KeyPoint {
 public:
  KeyPoint() : pt(0, 0), size(0), angle(-1), response(0), octave(0), class_id(-1) {}
  Point2f pt;
  float size, angle, response;
  int octave, class_id;
};
}  // namespace cv
#endif
