// Projection of point clouds into surface grids.
#include "frames.h"
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/operators/MLSProjection.hpp>
typedef SurfacePatch SP; typedef std::vector<SP> Cell;
static SP patch(float m, float d = 0.25f) { SP p(m, d); p.setColor(base::Vector3d(0, 0, 0)); return p; }
static Cell cell(const MLSGrid& g, int x, int y) { Cell c; for (MLSGrid::const_iterator i = g.beginCell(x, y); i != g.endCell(); i++) c.push_back(*i); return c; }
// points of a cloud in a frame of its own into the cells of a grid in another frame
extern "C" void points() {
  Environment env; Fr fg = frame(1, 1, -1), fc = frame(TURNS, 2, -2); FrameNode* ng = new FrameNode(fg.tf()); env.addChild(env.getRootNode(), ng); double vz = pick("uncertain", 2) ? 0.5 : 0; FrameNode* nc = 0; if (vz > 0) { Eigen::Matrix<double, 6, 6> c = Eigen::Matrix<double, 6, 6>::Zero(); c(5, 5) = vz; c(3, 3) = 1; nc = new FrameNode(TransformWithUncertainty(fc.tf(), c)); } else nc = new FrameNode(fc.tf()); env.addChild(env.getRootNode(), nc);
  MLSGrid* g = new MLSGrid(2, 2, 1, 1, -1, -1); env.attachItem(g, ng); g->setGapSize(0.5); g->setHorizontalPatchThickness(0.125); Pointcloud* pc = new Pointcloud(); env.attachItem(pc, nc); V3 p[2]; double var[2]; int mode = pick("mode", 6); bool uses = mode & 1, color = mode == 2 || mode == 3, used = mode >= 3 && mode < 5, unc = vz > 0 || mode & 1, aoi = mode == 5 || mode == 0; if (used) g->insertHead(0, 0, patch(-100));
  for (int i = 0; i < 2; i++) { double x = num("x", -3, 3, -1); double y = i ? 0.25 : num("y", -3, 3, -1); double z = num("z", -4, 4, -1); p[i] = V3(x, y, z + 20 * i); pc->vertices.push_back(p[i]); var[i] = 0.0625; if (uses) { var[i] = i ? 0.25 : 0.01; pc->getVertexData<double>(Pointcloud::VERTEX_VARIANCE).push_back(var[i]); } if (color) pc->getVertexData<Eigen::Vector3d>(Pointcloud::VERTEX_COLOR).push_back(V3(i, 0.5, 0)); }
  MLSProjection* op = new MLSProjection(); env.attachItem(op); op->addInput(pc); op->addOutput(g); op->useUncertainty(unc); op->setDefaultUncertainty(0.0625); if (aoi) op->setAreaOfInterest(-0.5, 1, -1, 1, -10, 10); sx_assert(op->updateAll(), "projection succeeds"); sx_assert(g->getHasCellColor() == color, "colours of points make a grid in colours");
  int total = 0; for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) { Cell c = cell(*g, x, y); for (auto& s : c) if (s.mean < -50) { sx_assert(used && !x && !y, "the grid keeps what it has"); } else { total++; int one = 0, dev = 1, col = 1; for (int i = 0; i < 2; i++) { V3 q = fg.in(fc.out(p[i])); double a = q[0] + 1 - x, b = q[1] + 1 - y; int in = a > -1e-5; in &= a < 1 + 1e-5; in &= b > -1e-5; in &= b < 1 + 1e-5; in &= sx_near(s.mean, q[2], 1e-4); if (aoi) { in &= q[0] > -0.5 - 1e-5; in &= q[2] < 10 + 1e-5; } one |= in; double v = (uses || pc->vertices.size() != 2 ? var[i] : 0.0625) + (unc ? vz : 0); dev &= !in | sx_near(s.stdev * s.stdev, v, 1e-4); if (color) col &= !in | (s.color[0] == (i ? 255 : 0)); } sx_assert(one, "a patch is a point of the cloud in its cell at its height"); sx_assert(dev, "the deviation of a patch is that of its point and of the frames"); sx_assert(col, "the colour of a patch is that of its point"); sx_assert(s.isHorizontal(), "points become surfaces"); } }
  int lo = 0, hi = 0; for (int i = 0; i < 2; i++) { V3 q = fg.in(fc.out(p[i])); int in = q[0] > -1 + 1e-5; in &= q[0] < 1 - 1e-5; in &= q[1] > -1 + 1e-5; in &= q[1] < 1 - 1e-5; int out = q[0] > -1 - 1e-5; out &= q[0] < 1 + 1e-5; out &= q[1] > -1 - 1e-5; out &= q[1] < 1 + 1e-5; if (aoi) { in &= q[0] > -0.5 + 1e-5; in &= q[2] < 10 - 1e-5; out &= q[0] > -0.5 - 1e-5; out &= q[2] < 10 + 1e-5; } lo += in; hi += out; } sx_assert((total >= lo) & (total <= hi), "each point within the grid, and no other, becomes a patch"); sx_reach(total ? "inside" : "outside"); if (aoi) sx_reach("area");
}
// free space between the sensor and what it saw, the same whether the grid was in use or not
extern "C" void free_space() {
  Environment env; MLSGrid* g = new MLSGrid(5, 2, 1, 1); env.attachItem(g, env.getRootNode()); bool used = pick("used", 2); bool turned = pick("back", 2); if (used) g->insertHead(0, 1, patch(-100)); Pointcloud* pc = new Pointcloud(); env.attachItem(pc, env.getRootNode()); int d = 1 + pick("far", 3); bool two = d > 1 && pick("two", 2); double z = num("z", -2, 2, -1); double oz = two ? pick("oz", 3) - 1 : num("oz", -2, 2, -1); Transform t = Transform::Identity(); int ox = turned ? 4 : 0, tx = turned ? 4 - d : d; t.translation() = V3(ox + 0.5, 0.5, oz); pc->setSensorOrigin(t); pc->vertices.push_back(V3(tx + 0.5, 0.5, z)); int mx = turned ? tx + 1 : tx - 1; if (two) pc->vertices.push_back(V3(mx + 0.5, 0.5, z));
  MLSProjection* op = new MLSProjection(); env.attachItem(op); op->addInput(pc); op->addOutput(g); op->useNegativeInformation(true); op->useUncertainty(false); sx_assert(op->updateAll(), "projection succeeds"); int ok = 1, free = 1, pos = 1; for (int x = 0; x < 5; x++) { Cell c = cell(*g, x, 0); int neg = 0, surf = 0; double lo = 0, hi = 0; for (auto& s : c) if (s.isNegative()) { neg++; lo = s.mean - s.height; hi = s.mean; } else { surf++; pos &= sx_near(s.mean, z, 1e-4); }
    bool between = turned ? x > tx && x <= ox : x >= ox && x < tx; ok &= surf == (x == tx || (two && x == mx)); if (!between) free &= !neg; else { free &= neg >= 1; if (!two) { double f = (double)(x - ox) / (tx - ox), ray = oz + (z - oz) * f, per = (oz - z) / d * f; double a = per < 0 ? ray : ray + per, h = per < 0 ? -per : per; (void)a; free &= neg == 1; free &= sx_near(hi, ray + per, 1e-4); free &= sx_near(hi - lo, h, 1e-4); } } }
  for (int x = 0; x < 5; x++) { Cell c = cell(*g, x, 1); ok &= c.size() == (x == 0 && used); } sx_assert(ok, "what was seen is put where it was seen and nowhere else"); sx_assert(pos, "free space does not move surfaces"); sx_assert(free, "the cells between sensor and surface, and no others, are known to be free along the ray"); sx_reach("end");
}
extern "C" void origin_outside() { Environment env; MLSGrid* g = new MLSGrid(2, 2, 1, 1); env.attachItem(g, env.getRootNode()); Pointcloud* pc = new Pointcloud(); env.attachItem(pc, env.getRootNode()); double x = num("ox", -8, 8, -1); Transform t = Transform::Identity(); t.translation() = V3(x, 0.5, 0); pc->setSensorOrigin(t); pc->vertices.push_back(V3(1.5, 0.5, 1)); MLSProjection* op = new MLSProjection(); env.attachItem(op); op->addInput(pc); op->addOutput(g); bool neg = pick("negative", 2); op->useNegativeInformation(neg); bool thrown = false; try { op->updateAll(); } catch (const std::runtime_error&) { thrown = true; } if (thrown) { sx_assert(neg & ((x < 1e-9) | (x > 2 - 1e-9)), "a sensor is refused only when free space is asked for and it is outside"); sx_reach("refused"); } else { sx_assert(!neg | ((x > -1e-9) & (x < 2 + 1e-9)), "a sensor outside is refused when free space is asked for"); sx_assert(cell(*g, 1, 0).size() >= 1, "the point is projected"); sx_reach("projected"); } }
