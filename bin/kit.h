// shared by the demonstrations
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <unistd.h>
#include <sys/stat.h>
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { fprintf(stderr, "line %d: not so: %s\n", __LINE__, #c); bad = 1; } } while (0)
#define DONE() do { fflush(0); _exit(bad); } while (0)
#if defined(KIT_GDAL) || defined(KIT_HRIT) || defined(KIT_MSAT) || defined(KIT_VIEW)
#include "hritgen.h"
static void product(hrit::Product p, std::vector<int> segs = {}, hrit::Pro pro = hrit::Pro(), bool companions = true,
                    std::vector<int> cov = {1, 8000, 100, 5667, 8001, 11136, 2000, 7567})
{
    mkdir(p.dir.c_str(), 0777);
    int top = p.chan == 12 ? 11136 : 3712;
    p.end = (top + p.segl - 1) / p.segl;
    if (segs.empty()) for (int i = 1; i <= p.end; ++i) segs.push_back(i);
    for (int s : segs) hrit::write_segment(p, s, s);
    if (companions) { hrit::write_prologue(p, pro); hrit::write_epilogue(p, cov); }
}
static std::string name_of(const hrit::Product& p, const std::string& suffix = "")
{
    return p.dir + "/" + p.res + ":" + p.p1 + ":" + p.p2 + suffix + ":" + p.time;
}
#endif
#ifdef KIT_GDAL
#include <gdal_priv.h>
#include <ogr_spatialref.h>
#include <cpl_string.h>
extern "C" void GDALRegister_MsatXRIT();
extern "C" void GDALRegister_MsatGRIB();
static void begin() { GDALAllRegister(); GDALRegister_MsatXRIT(); GDALRegister_MsatGRIB(); CPLSetErrorHandler(CPLQuietErrorHandler); }
static GDALDataset* open_(const std::string& n, const char* compute = nullptr)
{
    char** o = nullptr;
    if (compute) o = CSLSetNameValue(o, "MSAT_COMPUTE", compute);
    GDALDataset* d = (GDALDataset*)GDALOpenEx(n.c_str(), GDAL_OF_RASTER | GDAL_OF_READONLY, nullptr, o, nullptr);
    CSLDestroy(o);
    return d;
}
static double px(GDALDataset* d, int x, int y, int band = 1)
{
    double v = -9999;
    if (!d || d->GetRasterBand(band)->RasterIO(GF_Read, x, y, 1, 1, &v, 1, 1, GDT_Float64, 0, 0) != CE_None) return NAN;
    return v;
}
static GDALDataset* mem(int xs, int ys, int nb, GDALDataType t)
{
    return GetGDALDriverManager()->GetDriverByName("MEM")->Create("", xs, ys, nb, t, nullptr);
}
static void put(GDALDataset* d, int b, int x, int y, double v) { d->GetRasterBand(b)->RasterIO(GF_Write, x, y, 1, 1, &v, 1, 1, GDT_Float64, 0, 0); }
static bool close_to(double a, double b, double t) { return std::fabs(a - b) <= t; }
#endif
