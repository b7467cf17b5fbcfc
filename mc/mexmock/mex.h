// mex.h: a stand-in for the MATLAB mex API used by the gateways
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include "matrix.h"
#ifdef __cplusplus
extern "C" {
#endif
int mexPrintf(const char *f, ...);
void mexErrMsgTxt(const char *msg) __attribute__((noreturn));
void mexErrMsgIdAndTxt(const char *id, const char *f, ...) __attribute__((noreturn));
void mexWarnMsgTxt(const char *msg);
int mexCallMATLAB(int nout, mxArray *out[], int nin, mxArray *in[], const char *name);
void mexFunction(int nargout, mxArray *pargout[], int nargin, const mxArray *pargin[]);
#ifdef __cplusplus
}
#else
#define printf mexPrintf
#endif
