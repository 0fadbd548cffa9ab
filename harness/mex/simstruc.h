/* Declarations of the part of the Simulink S-function API used by blocks with real vector ports; a block's ports are plain arrays here */
#ifndef SIMSTRUC_H
#define SIMSTRUC_H
#include "mex.h"
typedef double real_T;
typedef int int_T;
typedef unsigned int uint_T;
typedef bool boolean_T;
typedef const real_T *const *InputRealPtrsType;
typedef const void *const *InputPtrsType;
typedef struct { int width, numDims; int *dims; } DimsInfo_T;
#define DYNAMICALLY_SIZED (-1)
#define INHERITED_SAMPLE_TIME (-1.0)
#define CONTINUOUS_SAMPLE_TIME 0.0
#define FIXED_IN_MINOR_STEP_OFFSET 1.0
#define SS_OPTION_EXCEPTION_FREE_CODE 1
#define H_PORTS 8
typedef struct SimStruct_tag {
    int ncont, ndisc, nparams, nin, nout, nst;
    int inw[H_PORTS], outw[H_PORTS], feed[H_PORTS], contig[H_PORTS];
    double st, off;
    double *in[H_PORTS], *out[H_PORTS];          /* contiguous inputs; outputs */
    const double **inp[H_PORTS];                 /* one pointer per element */
} SimStruct;
int h_ssport(int ok);                            /* is the port there? */
#define ssSetNumContStates(S, k) ((S)->ncont = (k))
#define ssSetNumDiscStates(S, k) ((S)->ndisc = (k))
#define ssSetNumSFcnParams(S, k) ((S)->nparams = (k))
#define ssGetNumSFcnParams(S) ((S)->nparams)
#define ssGetSFcnParamsCount(S) 0
#define ssSetNumInputPorts(S, k) ((S)->nin = (k), (k) >= 0 && (k) <= H_PORTS)
#define ssSetNumOutputPorts(S, k) ((S)->nout = (k), (k) >= 0 && (k) <= H_PORTS)
#define ssGetNumInputPorts(S) ((S)->nin)
#define ssGetNumOutputPorts(S) ((S)->nout)
#define H_IN(S, p) (h_ssport((p) >= 0 && (p) < (S)->nin), (p))
#define H_OUT(S, p) (h_ssport((p) >= 0 && (p) < (S)->nout), (p))
#define ssSetInputPortVectorDimension(S, p, w) ((S)->inw[H_IN(S, p)] = (w), 1)
#define ssSetOutputPortVectorDimension(S, p, w) ((S)->outw[H_OUT(S, p)] = (w), 1)
#define ssSetInputPortWidth(S, p, w) ((S)->inw[H_IN(S, p)] = (w))
#define ssSetOutputPortWidth(S, p, w) ((S)->outw[H_OUT(S, p)] = (w))
#define ssSetInputPortDirectFeedThrough(S, p, k) ((S)->feed[H_IN(S, p)] = (k))
#define ssSetInputPortRequiredContiguous(S, p, k) ((S)->contig[H_IN(S, p)] = (k))
#define ssSetInputPortDimensionInfo(S, p, d) ((S)->inw[H_IN(S, p)] = (d)->width, 1)
#define ssSetOutputPortDimensionInfo(S, p, d) ((S)->outw[H_OUT(S, p)] = (d)->width, 1)
#define ssSetNumSampleTimes(S, k) ((S)->nst = (k))
#define ssSetSampleTime(S, i, t) ((S)->st = (t))
#define ssSetOffsetTime(S, i, t) ((S)->off = (t))
#define ssSetNumRWork(S, k) ((void)0)
#define ssSetNumIWork(S, k) ((void)0)
#define ssSetNumPWork(S, k) ((void)0)
#define ssSetNumModes(S, k) ((void)0)
#define ssSetNumNonsampledZCs(S, k) ((void)0)
#define ssSetOptions(S, k) ((void)0)
#define ssGetInputPortWidth(S, p) ((S)->inw[H_IN(S, p)])
#define ssGetOutputPortWidth(S, p) ((S)->outw[H_OUT(S, p)])
#define ssGetOutputPortRealSignal(S, p) ((S)->out[H_OUT(S, p)])
#define ssGetOutputPortSignal(S, p) ((void *)(S)->out[H_OUT(S, p)])
/* element pointers are for ports that need not be contiguous, the signal itself for those that must be */
#define ssGetInputPortRealSignalPtrs(S, p) ((InputRealPtrsType)(S)->inp[H_IN(S, p)])
#define ssGetInputPortSignalPtrs(S, p) ((InputPtrsType)(S)->inp[H_IN(S, p)])
#define ssGetInputPortRealSignal(S, p) ((const real_T *)(S)->in[H_IN(S, p)])
#define ssGetInputPortSignal(S, p) ((const void *)(S)->in[H_IN(S, p)])
#define UNUSED_ARG(x) (void)(x)
#endif
