// Interface of FFTW 2 (as far as the library uses it), from the FFTW 2.1 manual; implementation in standin.cpp.
#ifndef FFTW_H
#define FFTW_H
#ifdef FFT_SINGLE
typedef float fftw_real;
#else
typedef double fftw_real;
#endif
typedef struct { fftw_real re, im; } fftw_complex;
typedef fftw_complex FFTW_COMPLEX;
typedef struct standin_plan *fftw_plan;
typedef enum { FFTW_FORWARD = -1, FFTW_BACKWARD = 1 } fftw_direction;
#define FFTW_ESTIMATE (0)
#define FFTW_MEASURE (1)
#define FFTW_OUT_OF_PLACE (0)
#define FFTW_IN_PLACE (8)
#define FFTW_USE_WISDOM (16)
#define FFTW_THREADSAFE (128)
extern "C" {
fftw_plan fftw_create_plan(int n, fftw_direction dir, int flags);
void fftw_destroy_plan(fftw_plan);
void fftw(fftw_plan, int howmany, fftw_complex *in, int istride, int idist, fftw_complex *out, int ostride, int odist);
void fftw_one(fftw_plan, fftw_complex *in, fftw_complex *out);
}
#endif
