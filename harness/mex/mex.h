/* Declarations of the part of the MATLAB C API that a MEX file for numeric data uses; defined for the checks in ../mexstub.h */
#ifndef MEX_H
#define MEX_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
typedef size_t mwSize;
typedef size_t mwIndex;
typedef ptrdiff_t mwSignedIndex;
typedef bool mxLogical;
typedef unsigned short mxChar;
typedef double mxDouble;
typedef struct mxArray_tag mxArray;
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS,
    mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL = 0, mxCOMPLEX = 1 } mxComplexity;
#define mexPrintf printf
#define mxAssert(c, m) ((void)0)
const mwSize *mxGetDimensions(const mxArray *a);
mwSize mxGetNumberOfDimensions(const mxArray *a);
size_t mxGetM(const mxArray *a);
size_t mxGetN(const mxArray *a);
size_t mxGetNumberOfElements(const mxArray *a);
size_t mxGetElementSize(const mxArray *a);
mxClassID mxGetClassID(const mxArray *a);
const char *mxGetClassName(const mxArray *a);
bool mxIsDouble(const mxArray *a);
bool mxIsSingle(const mxArray *a);
bool mxIsSparse(const mxArray *a);
bool mxIsComplex(const mxArray *a);
bool mxIsNumeric(const mxArray *a);
bool mxIsLogical(const mxArray *a);
bool mxIsChar(const mxArray *a);
bool mxIsCell(const mxArray *a);
bool mxIsStruct(const mxArray *a);
bool mxIsEmpty(const mxArray *a);
bool mxIsScalar(const mxArray *a);
bool mxIsNaN(double v);
bool mxIsInf(double v);
bool mxIsFinite(double v);
double mxGetScalar(const mxArray *a);
double *mxGetPr(const mxArray *a);
double *mxGetDoubles(const mxArray *a);
void *mxGetData(const mxArray *a);
mwIndex *mxGetIr(const mxArray *a);
mwIndex *mxGetJc(const mxArray *a);
mwSize mxGetNzmax(const mxArray *a);
mxArray *mxGetField(const mxArray *a, mwIndex i, const char *name);
mxArray *mxGetFieldByNumber(const mxArray *a, mwIndex i, int k);
int mxGetFieldNumber(const mxArray *a, const char *name);
int mxGetNumberOfFields(const mxArray *a);
const char *mxGetFieldNameByNumber(const mxArray *a, int k);
void mxSetField(mxArray *a, mwIndex i, const char *name, mxArray *v);
void mxSetFieldByNumber(mxArray *a, mwIndex i, int k, mxArray *v);
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity f);
mxArray *mxCreateNumericArray(mwSize nd, const mwSize *d, mxClassID c, mxComplexity f);
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity f);
mxArray *mxCreateDoubleScalar(double v);
mxArray *mxCreateStructArray(mwSize nd, const mwSize *d, int nf, const char **names);
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **names);
void mxDestroyArray(mxArray *a);
void *mxMalloc(size_t n);
void *mxCalloc(size_t k, size_t n);
void *mxRealloc(void *p, size_t n);
void mxFree(void *p);
void mexErrMsgTxt(const char *m) __attribute__((noreturn));
void mexErrMsgIdAndTxt(const char *id, const char *m, ...) __attribute__((noreturn));
void mexWarnMsgTxt(const char *m);
void mexWarnMsgIdAndTxt(const char *id, const char *m, ...);
void mexMakeMemoryPersistent(void *p);
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
#endif
