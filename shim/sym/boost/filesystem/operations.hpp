#pragma once
#include <boost/filesystem/path.hpp>
namespace boost { namespace filesystem {
inline bool exists(const path& p) { return sxs::files().count(p.string()) != 0; } inline bool is_regular(const path& p) { return exists(p); } inline bool is_regular_file(const path& p) { return exists(p); } inline bool create_directories(const path&) { return true; } inline bool create_directory(const path&) { return true; } inline bool remove(const path& p) { return sxs::files().erase(p.string()); }
} }
