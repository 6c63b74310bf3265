// The drivers of the plugin, linked into the tool: known before those of GDAL,
// as when GDAL loads the plugin itself.
extern "C" { void GDALRegister_MsatXRIT(); void GDALRegister_MsatGRIB(); }
namespace { struct Registered { Registered() { GDALRegister_MsatXRIT(); GDALRegister_MsatGRIB(); } } registered; }
