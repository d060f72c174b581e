/* live = vhlive(file): live allocations of the library in a loaded MEX file. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include "mex.h"
void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
    char path[4096]; void* h; long (*live)(void); double v = -1;
    mxGetString(prhs[0], path, sizeof path);
    h = dlopen(path, RTLD_NOW | RTLD_NOLOAD);
    if (h) { live = (long (*)(void)) dlsym(h, "vh_live"); if (live) v = (double) live(); dlclose(h); }
    plhs[0] = mxCreateDoubleScalar(v);
}
