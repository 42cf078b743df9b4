#pragma once
// In-memory stand-in for the GDAL raster interface; a marker file is left where a data set was created.
#include <map>
#include <string>
#include <vector>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <fstream>
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
typedef int CPLErr; enum { CE_None = 0, CE_Failure = 3 };
enum GDALDataType { GDT_Unknown, GDT_Byte, GDT_UInt16, GDT_Int16, GDT_UInt32, GDT_Int32, GDT_Float32, GDT_Float64 }; enum GDALRWFlag { GF_Read, GF_Write }; enum GDALAccess { GA_ReadOnly, GA_Update };
typedef void* GDALDatasetH;
class GDALRasterBand { public: GDALDataType type = GDT_Byte; int w = 0, h = 0; std::vector<unsigned char> data; double nodata = 0; int hasNoData = 0; std::string desc;
  static int size(GDALDataType t) { return t == GDT_Byte ? 1 : t == GDT_UInt16 || t == GDT_Int16 ? 2 : t == GDT_Float64 ? 8 : 4; }
  GDALDataType GetRasterDataType() { return type; } CPLErr SetNoDataValue(double v) { nodata = v; hasNoData = 1; return CE_None; } double GetNoDataValue(int* has) { if (has) *has = hasNoData; return nodata; }
  void SetDescription(const char* s) { desc = s; } const char* GetDescription() { return desc.c_str(); }
  CPLErr RasterIO(GDALRWFlag f, int, int, int nx, int ny, void* p, int, int, GDALDataType t, int ps, int ls) { if (t != type || nx != w || ny != h) return CE_Failure; int s = size(t); if (!ps) ps = s; if (!ls) ls = ps * nx; for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) { unsigned char* a = (unsigned char*)p + (long)y * ls + (long)x * ps; unsigned char* b = &data[((size_t)y * w + x) * s]; if (f == GF_Write) memcpy(b, a, s); else memcpy(a, b, s); } return CE_None; } };
class GDALDataset { public: int w = 0, h = 0; std::vector<GDALRasterBand> bands; double gt[6] = {0, 1, 0, 0, 0, 1}; bool hasGt = false; std::string path;
  int GetRasterXSize() { return w; } int GetRasterYSize() { return h; } int GetRasterCount() { return (int)bands.size(); } GDALRasterBand* GetRasterBand(int i) { return i >= 1 && i <= (int)bands.size() ? &bands[i - 1] : 0; }
  CPLErr SetGeoTransform(double* g) { for (int i = 0; i < 6; i++) gt[i] = g[i]; hasGt = true; return CE_None; } CPLErr GetGeoTransform(double* g) { for (int i = 0; i < 6; i++) g[i] = gt[i]; return hasGt ? CE_None : CE_Failure; } CPLErr SetProjection(const char*) { return CE_None; } };
inline std::map<std::string, GDALDataset>& sx_gdal() { static std::map<std::string, GDALDataset> m; return m; }
class GDALDriver { public: GDALDataset* Create(const char* p, int w, int h, int n, GDALDataType t, char**) { GDALDataset* d = new GDALDataset(); d->w = w; d->h = h; d->bands.resize(n); for (int i = 0; i < n; i++) { d->bands[i].type = t; d->bands[i].w = w; d->bands[i].h = h; d->bands[i].data.resize((size_t)w * h * GDALRasterBand::size(t)); } d->path = p; return d; } };
class GDALDriverManager { public: GDALDriver drv; GDALDriver* GetDriverByName(const char*) { return &drv; } };
inline GDALDriverManager* GetGDALDriverManager() { static GDALDriverManager m; return &m; }
inline void GDALAllRegister() {}
inline void* GDALOpen(const char* p, GDALAccess) { std::map<std::string, GDALDataset>::iterator it = sx_gdal().find(p); if (it == sx_gdal().end()) return 0; GDALDataset* d = new GDALDataset(it->second); d->path.clear(); return d; }
inline void GDALClose(void* h) { GDALDataset* d = (GDALDataset*)h; if (!d->path.empty()) { sx_gdal()[d->path] = *d; std::ofstream o(d->path.c_str()); o << "x"; } delete d; }
inline void CPLFree(void* p) { free(p); }
