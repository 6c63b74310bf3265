// libasan's interceptor of glob() dereferences the empty slots GLOB_DOOFFS asks
// for (a bug of the sanitizer): call libc's own.
#ifdef __SANITIZE_ADDRESS__
#include <glob.h>
#include <dlfcn.h>
extern "C" int glob(const char* p, int flags, int (*err)(const char*, int), glob_t* g)
{
    typedef int (*F)(const char*, int, int (*)(const char*, int), glob_t*);
    static F f = (F)dlsym(dlopen("libc.so.6", RTLD_LAZY | RTLD_NOLOAD), "glob");
    return f(p, flags, err, g);
}
#endif
