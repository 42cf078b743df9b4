// Banded grids: what is put into a cell of a band is found there, and survives copies and storage.
#include "core_model.h"
#include <envire/maps/Grids.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <string.h>
#ifndef CELLT
#define CELLT float
#endif
#ifndef W
#define W 3
#endif
#ifndef H
#define H 2
#endif
typedef Grid<CELLT> GT;
static CELLT fresh(const char* n) { if (sizeof(CELLT) == 8 && (CELLT)0.5 != 0) return (CELLT)sx_dyadic(n, -100, 100, -1); if ((CELLT)0.5 != 0) return (CELLT)sx_float(n); return (CELLT)sx_bits(n, 8 * sizeof(CELLT)); }
static bool same(CELLT a, CELLT b) { return !memcmp(&a, &b, sizeof(CELLT)); }
static const char* BAND[] = { "grid_data", "a", "b" };
// writes and reads of cells, by index and by coordinate
extern "C" void cells() {
  GT* g = new GT(W, H, 0.5, 2, -1, 1); GT::Ptr hold(g); int nb = 2; CELLT v[2][H][W]; for (int b = 0; b < nb; b++) { GT::ArrayType& d = g->getGridData(BAND[b]); sx_assert(d.shape()[0] == H && d.shape()[1] == W && d.num_elements() == W * H, "a band has a value for every cell"); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { sx_assert(same(d[y][x], CELLT()), "a new band is empty"); v[b][y][x] = CELLT(); } } sx_assert(g->hasBand("a") && !g->hasBand("b"), "the bands are those that were made");
  for (int k = 0; k < 2; k++) { int b = pick("band", nb); int i = pick("cell", W * H); int x = i % W, y = i / W; CELLT n = fresh("n"); v[b][y][x] = n; double cx = -1 + x * 0.5 + 0.25, cy = 1 + y * 2 + 1.5; switch (pick("how", 4)) { case 0: g->getFromRaster(BAND[b], x, y) = n; break; case 1: g->get(BAND[b], cx, cy) = n; break; case 2: g->getGridData(BAND[b])[y][x] = n; break; case 3: g->getGridData(BAND[b]).data()[y * W + x] = n; break; } }
  const GT& c = *g; for (int b = 0; b < nb; b++) for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { int ok = same(g->getFromRaster(BAND[b], x, y), v[b][y][x]); ok &= same(c.getFromRaster(BAND[b], x, y), v[b][y][x]); ok &= same(c.get(BAND[b], -1 + x * 0.5 + 0.25, 1 + y * 2 + 0.5), v[b][y][x]); ok &= same(g->get(BAND[b], -1 + x * 0.5, 1 + y * 2), v[b][y][x]); ok &= same(c.getGridData(BAND[b])[y][x], v[b][y][x]); ok &= same(c.getGridData(BAND[b]).data()[y * W + x], v[b][y][x]); if (b == 0) { ok &= same(g->getGridData()[y][x], v[0][y][x]); ok &= same(c.getGridData()[y][x], v[0][y][x]); } sx_assert(ok, "a cell holds what was put there last"); }
  bool th = false; try { c.get("a", -1 + W * 0.5, 2); } catch (std::runtime_error&) { th = true; } sx_assert(th, "a coordinate outside is refused"); th = false; try { g->get("a", 0, 0.9); } catch (std::runtime_error&) { th = true; } sx_assert(th, "a coordinate outside is refused"); sx_reach("end");
}
// minimum and maximum
extern "C" void minmax() {
  GT::Ptr g(new GT(2, 2, 1, 1)); CELLT v[4]; for (int i = 0; i < 4; i++) { v[i] = fresh("v"); sx_assume(v[i] == v[i]); g->getGridData("a").data()[i] = v[i]; } CELLT lo = 1, hi = 2; g->getMinMaxValues("a", lo, hi); int in = 1, isLo = 0, isHi = 0; for (int i = 0; i < 4; i++) { in &= lo <= v[i]; in &= v[i] <= hi; isLo |= lo == v[i]; isHi |= hi == v[i]; } sx_assert(in & isLo, "the minimum is the smallest value"); sx_assert(in & isHi, "the maximum is the largest value"); sx_reach("end");
}
// the value that stands for no data
extern "C" void nodata() {
  GT::Ptr g(new GT(W, H, 1, 1)); bool has[2] = { false, false }; CELLT v[2]; v[0] = v[1] = CELLT(); for (int b = 0; b < 2; b++) g->createBand(BAND[b]); g->getData<int>("note") = 3; for (int k = 0; k < 2; k++) switch (pick("op", 3)) { case 0: { int b = pick("b", 2); CELLT n = fresh("n"); g->setNoData(BAND[b], n); has[b] = true; v[b] = n; break; } case 1: { CELLT n = fresh("n"); g->setNoData(n); for (int b = 0; b < 2; b++) has[b] = true, v[b] = n; sx_reach("all"); break; } case 2: break; }
  for (int b = 0; b < 2; b++) { std::pair<CELLT, bool> r = g->getNoData(BAND[b]); sx_assert(r.second == has[b] && (!has[b] || same(r.first, v[b])), "the no-data value of a band is what was set"); } std::pair<CELLT, bool> r = g->getNoData(); sx_assert(r.second == has[0] && (!has[0] || same(r.first, v[0])), "the no-data value of a band is what was set"); sx_assert(!g->getNoData("note").second, "only bands have no-data values"); sx_reach("end");
}
static void fill(GT& g, const char* band, const char* n, int w, int h) { for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) g.getGridData(band)[y][x] = fresh(n); }
static bool sameBand(const GT& a, const char* x, const GT& b, const char* y) { const GT::ArrayType &p = a.getGridData(x), &q = b.getGridData(y); if (p.shape()[0] != q.shape()[0] || p.shape()[1] != q.shape()[1]) return false; int ok = 1; for (size_t i = 0; i < p.num_elements(); i++) ok &= same(p.data()[i], q.data()[i]); return ok; }
// bands of one grid copied to another, and whole grids copied
extern "C" void copies() {
  GT::Ptr a(new GT(W, H, 0.5, 2, -1, 1)); fill(*a, "a", "va", W, H); fill(*a, "grid_data", "vg", W, H); bool nd = pick("nodata", 2); CELLT n = fresh("n"); if (nd) a->setNoData("a", n); int how = pick("how", 4); GT::Ptr b;
  if (how < 2) { b = new GT(W, H, how ? 0.5 : 1, 2); if (how == 0) fill(*b, "b", "vb", W, H); b->copyBandFrom(*a, "a", how == 0 ? "b" : ""); const char* t = how == 0 ? "b" : "a"; sx_assert(sameBand(*b, t, *a, "a"), "a copied band holds the same values"); sx_assert(b->getNoData(t).second == nd && (!nd || same(b->getNoData(t).first, n)), "a copied band has the same no-data value"); sx_reach("band"); }
  else { if (how == 2) b = a->clone(); else { b = new GT(1, 1, 1, 1); fill(*b, "a", "vb", 1, 1); b->set(a.get()); } const GT& c = *b; sx_assert(c.getCellSizeX() == W && c.getCellSizeY() == H && c.getScaleX() == 0.5 && c.getScaleY() == 2 && c.getOffsetX() == -1 && c.getOffsetY() == 1, "a copied grid has the same geometry"); sx_assert(sameBand(c, "a", *a, "a") && sameBand(c, "grid_data", *a, "grid_data"), "a copied grid holds the same values"); sx_assert(b->getNoData("a").second == nd && (!nd || same(b->getNoData("a").first, n)), "a copied grid has the same no-data values"); sx_reach("grid"); }
  const char* t = how == 0 ? "b" : "a"; CELLT old = a->getFromRaster("a", 1, 1); b->getFromRaster(t, 1, 1) = fresh("late"); sx_assert(same(a->getFromRaster("a", 1, 1), old), "a copy is independent"); CELLT now = b->getFromRaster(t, 1, 1); a->getFromRaster("a", 1, 1) = fresh("later"); sx_assert(same(b->getFromRaster(t, 1, 1), now), "a copy is independent");
}
extern "C" void copy_refused() { GT::Ptr a(new GT(W, H, 1, 1)); a->createBand("a"); Grid<double>::Ptr d(new Grid<double>(W, H, 1, 1)); Grid<uint8_t>::Ptr u(new Grid<uint8_t>(W, H, 1, 1)); bool th = false; try { if (sizeof(CELLT) == 1) d->copyBandFrom(*a, "a"); else u->copyBandFrom(*a, "a"); } catch (std::bad_cast&) { th = true; } sx_assert(th, "a band of another type is refused"); int bw = pick("w", 2) ? W : W + 1; int bh = pick("h", 2) ? H : H + 1; GT::Ptr b(new GT(bw, bh, 1, 1)); bool other = b->getCellSizeX() != W || b->getCellSizeY() != H; fill(*a, "a", "v", W, H); try { b->copyBandFrom(*a, "a"); } catch (std::exception&) { } if (other) { GT::ArrayType& d = b->getGridData("a"); sx_assert(d.shape()[0] == b->getCellSizeY() && d.shape()[1] == b->getCellSizeX(), "a band always has a value for every cell"); sx_reach("other size"); } sx_reach("end"); }
// ---- storage
static void sameGrid(GT& a, GT& b, int bands) { sx_assert(b.getCellSizeX() == a.getCellSizeX() && b.getCellSizeY() == a.getCellSizeY(), "the geometry arrives"); int ok = 1; ok &= b.getScaleX() == a.getScaleX(); ok &= b.getScaleY() == a.getScaleY(); ok &= b.getOffsetX() == a.getOffsetX(); ok &= b.getOffsetY() == a.getOffsetY(); sx_assert(ok, "the geometry arrives"); for (int i = 0; i < 3; i++) { sx_assert(b.hasBand(BAND[i]) == (((bands >> i) & 1) != 0), "the bands arrive"); if ((bands >> i) & 1 && b.hasBand(BAND[i])) sx_assert(sameBand(a, BAND[i], b, BAND[i]), "the values arrive"); } }
static GT* make(int bands, const char* id) { int w = pick("w", 2) + 1, h = pick("h", 2) + 1; double ox = sx_dyadic("ox", -20, 20, -2); GT* g = new GT(w, h, 0.5, 2, ox, 1, id); for (int i = 0; i < 3; i++) if ((bands >> i) & 1) fill(*g, BAND[i], "v", w, h); return g; }
extern "C" void wire() { Environment env, e2; int bands = pick("bands", 8); GT* g = make(bands, "/g"); env.attachItem(g, env.getRootNode()); std::vector<BinaryEvent> ev; env.pullEvents(ev); e2.applyEvents(ev); GT* r = e2.getItem<GT>("/g").get(); sx_assert(r != 0, "the grid arrives"); if (r) sameGrid(*g, *r, bands); sx_reach("end");
  if (bands & 2) { CELLT n = fresh("n"); g->getFromRaster("a", 0, 0) = n; g->itemModified(); ev.clear(); env.pullEvents(ev); e2.applyEvents(ev); sx_assert(e2.getItem<GT>("/g").get() == r && same(r->getFromRaster("a", 0, 0), n), "a change arrives"); sx_reach("again"); } }
static std::string dir() { return sx_symbolic() ? "/scene" : "scene"; }
extern "C" void scene() { Environment env; int bands = pick("bands", 8); GT* g = make(bands, "/g"); bool nd = pick("nodata", 2) && (bands & 2); CELLT n = fresh("n"); if ((double)n != (double)n) sx_kill(); if (nd) g->setNoData("a", n); if (pick("framed", 2)) { FrameNode* f = new FrameNode(Transform(Eigen::Translation3d(sx_dyadic("fx", -4, 4, 0), 2, 0))); env.addChild(env.getRootNode(), f); env.attachItem(g, f); } else env.attachItem(g, env.getRootNode()); env.serialize(dir()); Environment* e2 = Environment::unserialize(dir()); GT* r = e2->getItem<GT>("/g").get(); sx_assert(r != 0, "the grid arrives"); if (r) { sameGrid(*g, *r, bands); if (bands & 2) sx_assert(r->getNoData("a").second == nd && (!nd || r->getNoData("a").first == n), "the no-data values arrive"); } delete e2; sx_reach("end"); }
// several bands of several grids in one scene; grids with one file for all their bands
extern "C" void scene_named() { Environment env; ImageRGB24* m = new ImageRGB24(2, 1, 1, 1); OccupancyGrid* o = new OccupancyGrid(1, 2, 0.5, 0.5); OccupancyGrid* p = new OccupancyGrid(1, 2, 0.5, 0.5); unsigned char v[3][2], ov[2], pv[2]; int nb = pick("bands", 4); const std::string B[] = { ImageRGB24::R, ImageRGB24::G, ImageRGB24::B }; for (int b = 0; b < nb; b++) for (int i = 0; i < 2; i++) m->getGridData(B[b])[0][i] = v[b][i] = sx_bits("v", 8); for (int i = 0; i < 2; i++) { o->getGridData(OccupancyGrid::OCCUPANCY)[i][0] = ov[i] = sx_bits("o", 8); p->getGridData(OccupancyGrid::OCCUPANCY)[i][0] = pv[i] = sx_bits("p", 8); } env.attachItem(m, env.getRootNode()); env.attachItem(o, env.getRootNode()); env.attachItem(p, env.getRootNode()); bool file = pick("file", 2); Environment* e2; if (file) { env.serialize(dir()); e2 = Environment::unserialize(dir()); } else { e2 = new Environment(); std::vector<BinaryEvent> ev; env.pullEvents(ev); e2->applyEvents(ev); }
  ImageRGB24* x = e2->getItem<ImageRGB24>(m->getUniqueId()).get(); OccupancyGrid* y = e2->getItem<OccupancyGrid>(o->getUniqueId()).get(); OccupancyGrid* z = e2->getItem<OccupancyGrid>(p->getUniqueId()).get(); sx_assert(x && y && z, "the grid arrives"); if (x && y && z) { for (int b = 0; b < 3; b++) { sx_assert(x->hasBand(B[b]) == (b < nb), "the bands arrive"); if (b < nb) for (int i = 0; i < 2; i++) sx_assert(x->getFromRaster(B[b], i, 0) == v[b][i], "the values arrive"); } for (int i = 0; i < 2; i++) sx_assert((y->getFromRaster(OccupancyGrid::OCCUPANCY, 0, i) == ov[i]) & (z->getFromRaster(OccupancyGrid::OCCUPANCY, 0, i) == pv[i]), "the values arrive"); } delete e2; sx_reach("end"); }
// raster files whose axes point in other directions
extern "C" void raster() { int w = pick("w", 3) + 1; int h = pick("h", 2) + 1; int xd = pick("xd", 2) ? -1 : 1; int yd = pick("yd", 2) ? -1 : 1; int nb = pick("bands", 2) + 1; int band = nb == 2 ? pick("band", 2) + 1 : 1; GDALDataset* ds = GetGDALDriverManager()->GetDriverByName("GTiff")->Create("in.tif", w, h, nb, sizeof(CELLT) == 1 ? GDT_Byte : GDT_Float32, 0); double ox = sx_dyadic("ox", -20, 20, -2), oy = sx_dyadic("oy", -20, 20, -2); double gt[6] = { ox, 0.5 * xd, 0, oy, 0, 2.0 * yd }; ds->SetGeoTransform(gt); CELLT v[2][2][3]; for (int b = 0; b < nb; b++) { for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) v[b][y][x] = fresh("v"); CELLT l[6]; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) l[y * w + x] = v[b][y][x]; ds->GetRasterBand(b + 1)->RasterIO(GF_Write, 0, 0, w, h, l, w, h, ds->GetRasterBand(b + 1)->GetRasterDataType(), 0, 0); } GDALClose(ds);
  GridBase::Ptr p; Transform t; if (pick("direct", 2)) { GT* g = new GT(); p = g; g->readGridData("z", "in.tif", band); t = Transform::Identity(); t.translation().x() = ox - (xd < 0 ? w * 0.5 : 0); t.translation().y() = oy - (yd < 0 ? h * 2 : 0); } else { std::pair<GridBase::Ptr, Transform> r = GridBase::readGridFromGdal("in.tif", "z", band); p = r.first; t = r.second; sx_reach("generic"); } GT* g = dynamic_cast<GT*>(p.get()); sx_assert(g && (int)g->getCellSizeX() == w && (int)g->getCellSizeY() == h && g->getScaleX() == 0.5 && g->getScaleY() == 2, "the raster's geometry is read"); if (!g) return; sx_assert(g->getGridData("z").shape()[0] == (size_t)h && g->getGridData("z").shape()[1] == (size_t)w, "a band has a value for every cell");
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { double X = ox + gt[1] * (x + 0.5), Y = oy + gt[5] * (y + 0.5); double lx = X - t.translation().x(), ly = Y - t.translation().y(); size_t a = 9, b = 9; bool in = g->toGrid(lx, ly, a, b); sx_assert(in, "a raster's pixel is inside the grid"); if (in) sx_assert(same(g->getFromRaster("z", a, b), v[band - 1][y][x]), "a raster's value is found where the raster has it"); } sx_reach("end"); }
extern "C" void raster_refused() { GDALDataset* ds = GetGDALDriverManager()->GetDriverByName("GTiff")->Create("in.tif", 2, 2, 1, GDT_Int16, 0); double rot = pick("rot", 2) ? 0.3 : 0; double gt[6] = { 0, 1, rot, 0, -rot, 1 }; ds->SetGeoTransform(gt); GDALClose(ds); Grid<int16_t>::Ptr s(new Grid<int16_t>(pick("w", 2) ? 2 : 0, 2, 0, 0)); Grid<float>::Ptr f(new Grid<float>()); int k = pick("kind", 5); bool th = false; try { if (k == 0) f->readGridData("z", "in.tif"); else if (k == 1) s->readGridData("z", "in.tif", 2); else if (k == 2) { Grid<int16_t>::Ptr q(new Grid<int16_t>(3, 2, 1, 1)); q->readGridData("z", "in.tif"); } else if (k == 3) s->readGridData("z", "nowhere.tif"); else s->readGridData("z", "in.tif"); } catch (std::runtime_error&) { th = true; } sx_assert(th == (k != 4 || rot != 0), "a raster that does not fit is refused"); sx_reach(th ? "refused" : "read"); }
// grids made by the name of their class
extern "C" void create() { static const char* N[] = { "Grid_d", "Grid_f", "Grid_h", "Grid_s", "Grid_t", "Grid_i", "Grid_j", "envire::ElevationGrid", "envire::OccupancyGrid", "envire::TraversabilityGrid" }; int k = pick("class", 9); double ox = sx_dyadic("ox", -20, 20, -2); GridBase::Ptr g = GridBase::create(N[k], 3, 2, 0.5, 2, ox, 1); sx_assert(g && g->getCellSizeX() == 3 && g->getCellSizeY() == 2 && g->getScaleX() == 0.5 && g->getScaleY() == 2 && g->getOffsetX() == ox && g->getOffsetY() == 1 && !g->isAttached(), "a grid is made with the geometry asked for"); bool ok = k == 0 ? dynamic_cast<Grid<double>*>(g.get()) != 0 : k == 1 ? dynamic_cast<Grid<float>*>(g.get()) != 0 : k == 2 ? dynamic_cast<Grid<uint8_t>*>(g.get()) != 0 : k == 3 ? dynamic_cast<Grid<int16_t>*>(g.get()) != 0 : k == 4 ? dynamic_cast<Grid<uint16_t>*>(g.get()) != 0 : k == 5 ? dynamic_cast<Grid<int32_t>*>(g.get()) != 0 : k == 6 ? dynamic_cast<Grid<uint32_t>*>(g.get()) != 0 : k == 7 ? dynamic_cast<ElevationGrid*>(g.get()) != 0 : dynamic_cast<OccupancyGrid*>(g.get()) != 0; sx_assert(ok, "a grid is made of the class asked for"); Environment env; env.attachItem(g.get(), env.getRootNode()); sx_assert(g->isAttached() && g->getUniqueId() != "" && env.getItem(g->getUniqueId()).get() == g.get(), "a grid that was made can be attached"); sx_reach("end"); }
// conversions of whole images
extern "C" void images() { base::samples::DistanceImage d; d.width = W; d.height = H; d.scale_x = 0.5; d.scale_y = 2; d.center_x = -1; d.center_y = 1; d.data.resize(W * H); float v[W * H]; for (int i = 0; i < W * H; i++) d.data[i] = v[i] = sx_float("v"); DistanceGrid::Ptr g(new DistanceGrid(d)); g->copyFromDistanceImage(d); sx_assert(g->getCellSizeX() == W && g->getCellSizeY() == H && g->getScaleX() == 0.5 && g->getScaleY() == 2 && g->getOffsetX() == -1 && g->getOffsetY() == 1, "the image's geometry is kept"); int ok = 1; for (int i = 0; i < W * H; i++) { float r = g->getFromRaster(DistanceGrid::DISTANCE, i % W, i / W); ok &= !memcmp(&r, &v[i], 4); } sx_assert(ok, "the image's values are kept");
  base::samples::frame::Frame f; f.init(W, H, 8, base::samples::frame::MODE_RGB); unsigned char c[W * H * 3]; for (int i = 0; i < W * H * 3; i++) f.image[i] = c[i] = sx_bits("c", 8); ImageRGB24::Ptr m(new ImageRGB24(W, H, 1, 1)); m->copyFromFrame(f); ok = 1; for (int i = 0; i < W * H; i++) { ok &= m->getFromRaster(ImageRGB24::R, i % W, i / W) == c[3 * i]; ok &= m->getFromRaster(ImageRGB24::G, i % W, i / W) == c[3 * i + 1]; ok &= m->getFromRaster(ImageRGB24::B, i % W, i / W) == c[3 * i + 2]; } sx_assert(ok, "the image's values are kept"); base::samples::frame::Frame o; m->convertToFrame(ImageRGB24::G, o); ok = o.getWidth() == W && o.getHeight() == H && o.getNumberOfBytes() == W * H; for (int i = 0; i < W * H && ok == 1; i++) ok &= o.image[i] == c[3 * i + 1]; sx_assert(ok, "the image's values are kept"); sx_reach("end"); }
