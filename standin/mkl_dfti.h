// Interface of the MKL DFTI functions (as far as the library uses them); implementation in standin.cpp.
#ifndef MKL_DFTI_H
#define MKL_DFTI_H
#define MKL_LONG long
enum DFTI_CONFIG_PARAM {
  DFTI_FORWARD_DOMAIN = 0, DFTI_DIMENSION = 1, DFTI_LENGTHS = 2, DFTI_PRECISION = 3, DFTI_FORWARD_SCALE = 4, DFTI_BACKWARD_SCALE = 5,
  DFTI_NUMBER_OF_TRANSFORMS = 7, DFTI_PLACEMENT = 11, DFTI_INPUT_STRIDES = 12, DFTI_OUTPUT_STRIDES = 13, DFTI_INPUT_DISTANCE = 14, DFTI_OUTPUT_DISTANCE = 15
};
enum DFTI_CONFIG_VALUE {
  DFTI_COMMITTED = 30, DFTI_UNCOMMITTED = 31, DFTI_COMPLEX = 32, DFTI_REAL = 33, DFTI_SINGLE = 35, DFTI_DOUBLE = 36, DFTI_INPLACE = 43, DFTI_NOT_INPLACE = 44
};
#define DFTI_NO_ERROR 0
#define DFTI_INCONSISTENT_CONFIGURATION 3
#define DFTI_BAD_DESCRIPTOR 5
typedef struct DFTI_DESCRIPTOR DFTI_DESCRIPTOR;
typedef DFTI_DESCRIPTOR *DFTI_DESCRIPTOR_HANDLE;
extern "C" {
MKL_LONG DftiCreateDescriptor(DFTI_DESCRIPTOR_HANDLE *, enum DFTI_CONFIG_VALUE prec, enum DFTI_CONFIG_VALUE dom, MKL_LONG dim, ...);
MKL_LONG DftiSetValue(DFTI_DESCRIPTOR_HANDLE, enum DFTI_CONFIG_PARAM, ...);
MKL_LONG DftiCommitDescriptor(DFTI_DESCRIPTOR_HANDLE);
MKL_LONG DftiComputeForward(DFTI_DESCRIPTOR_HANDLE, void *, ...);
MKL_LONG DftiComputeBackward(DFTI_DESCRIPTOR_HANDLE, void *, ...);
MKL_LONG DftiFreeDescriptor(DFTI_DESCRIPTOR_HANDLE *);
long DftiErrorClass(MKL_LONG, MKL_LONG);
char *DftiErrorMessage(MKL_LONG);
}
#endif
