/* The part of Matlab's engine and matrix interface that sm_matlab uses; harness/matlab.cpp simulates the engine behind it. */
#ifndef STUB_ENGINE_H
#define STUB_ENGINE_H
#include <stddef.h>
#include <stdint.h>
typedef struct engine Engine;
typedef struct mxArray_tag mxArray;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
typedef enum { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS } mxClassID;
typedef size_t mwSize;
typedef size_t mwIndex;
typedef bool mxLogical;
typedef uint16_t mxChar;
#ifdef __cplusplus
extern "C" {
#endif
Engine* engOpen(const char*);
Engine* engOpenSingleUse(const char*, void*, int*);
int engSetVisible(Engine*, bool);
int engGetVisible(Engine*, bool*);
int engClose(Engine*);
int engOutputBuffer(Engine*, char*, int);
int engEvalString(Engine*, const char*);
mxArray* engGetVariable(Engine*, const char*);
int engPutVariable(Engine*, const char*, const mxArray*);
mxArray* mxCreateString(const char*);
mxArray* mxCreateLogicalScalar(mxLogical);
mxArray* mxCreateDoubleScalar(double);
mxArray* mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity);
void mxDestroyArray(mxArray*);
size_t mxGetNumberOfElements(const mxArray*);
mwSize mxGetNumberOfDimensions(const mxArray*);
size_t mxGetM(const mxArray*);
size_t mxGetN(const mxArray*);
size_t mxGetElementSize(const mxArray*);
void* mxGetData(const mxArray*);
double* mxGetPr(const mxArray*);
double mxGetScalar(const mxArray*);
int mxGetString(const mxArray*, char*, mwSize);
char* mxArrayToString(const mxArray*);
void mxFree(void*);
mxClassID mxGetClassID(const mxArray*);
const mwSize* mxGetDimensions(const mxArray*);
double* mxGetPi(const mxArray*);
mxLogical* mxGetLogicals(const mxArray*);
const char* mxGetClassName(const mxArray*);
bool mxIsClass(const mxArray*, const char*);
mxArray* mxDuplicateArray(const mxArray*);
mxArray* mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity);
bool mxIsSingle(const mxArray*);
bool mxIsCell(const mxArray*);
bool mxIsStruct(const mxArray*);
bool mxIsNumeric(const mxArray*);
bool mxIsDouble(const mxArray*);
bool mxIsComplex(const mxArray*);
bool mxIsSparse(const mxArray*);
bool mxIsEmpty(const mxArray*);
bool mxIsChar(const mxArray*);
bool mxIsLogical(const mxArray*);
bool mxIsScalar(const mxArray*);
bool mxIsLogicalScalar(const mxArray*);
bool mxIsLogicalScalarTrue(const mxArray*);
#ifdef __cplusplus
}
#endif
#endif
