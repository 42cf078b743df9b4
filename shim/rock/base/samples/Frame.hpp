#pragma once
#include <vector>
#include <string>
#include <stdint.h>
#include <base/Time.hpp>
namespace base { namespace samples { namespace frame {
enum frame_mode_t { MODE_UNDEFINED, MODE_GRAYSCALE, MODE_RGB, MODE_UYVY }; enum frame_status_t { STATUS_EMPTY, STATUS_VALID, STATUS_INVALID };
struct Frame { base::Time time; std::vector<uint8_t> image; frame_status_t frame_status = STATUS_EMPTY; frame_mode_t mode = MODE_UNDEFINED; uint16_t width = 0, height = 0; int depth = 0;
  void init(uint16_t w, uint16_t h, int d, frame_mode_t m) { width = w; height = h; depth = d; mode = m; image.resize((size_t)w * h * ((d + 7) / 8) * (m == MODE_RGB ? 3 : 1)); }
  template <class T> void setAttribute(const std::string&, const T&) {} frame_mode_t getFrameMode() const { return mode; } const unsigned char* getImageConstPtr() const { return image.data(); } size_t getNumberOfBytes() const { return image.size(); } uint16_t getWidth() const { return width; } uint16_t getHeight() const { return height; } }; } } }
