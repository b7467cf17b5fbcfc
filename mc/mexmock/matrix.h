// matrix.h: a stand-in for the part of the MATLAB C API (R2018a, separate 64-bit indices) that the gateways use
#pragma once
#include <stddef.h>
#include <stdbool.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef size_t mwSize;
typedef size_t mwIndex;
typedef struct mxArray_tag mxArray;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
void *mxMalloc(size_t n);
void *mxCalloc(size_t n, size_t size);
void *mxRealloc(void *p, size_t n);
void mxFree(void *p);
bool mxIsComplex(const mxArray *a);
bool mxIsSparse(const mxArray *a);
bool mxIsEmpty(const mxArray *a);
bool mxIsStruct(const mxArray *a);
bool mxIsChar(const mxArray *a);
bool mxIsCell(const mxArray *a);
bool mxIsDouble(const mxArray *a);
bool mxIsNumeric(const mxArray *a);
bool mxIsLogical(const mxArray *a);
bool mxIsInf(double x);
bool mxIsNaN(double x);
bool mxIsFinite(double x);
mxArray *mxGetField(const mxArray *a, mwIndex k, const char *name);
int mxGetString(const mxArray *a, char *buf, mwSize len);
double mxGetScalar(const mxArray *a);
mwIndex *mxGetJc(const mxArray *a);
mwIndex *mxGetIr(const mxArray *a);
double *mxGetDoubles(const mxArray *a);
double *mxGetPr(const mxArray *a);
double *mxGetPi(const mxArray *a);
size_t mxGetM(const mxArray *a);
size_t mxGetN(const mxArray *a);
mwSize mxGetNzmax(const mxArray *a);
size_t mxGetNumberOfElements(const mxArray *a);
mwSize mxGetNumberOfDimensions(const mxArray *a);
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c);
mxArray *mxCreateDoubleScalar(double x);
mxArray *mxCreateCellMatrix(mwSize m, mwSize n);
mxArray *mxCreateString(const char *s);
int mxSetDoubles(mxArray *a, double *x);
void mxSetPr(mxArray *a, double *x);
void mxSetM(mxArray *a, mwSize m);
void mxSetN(mxArray *a, mwSize n);
void mxSetCell(mxArray *a, mwIndex k, mxArray *v);
mxArray *mxGetCell(const mxArray *a, mwIndex k);
void mxDestroyArray(mxArray *a);
#define mxAssert(e, msg) ((void) 0)
#ifdef __cplusplus
}
#endif
