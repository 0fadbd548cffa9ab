/* stands for MATLAB's simulink.c, which an S-function includes at its end: gives the checks access to the block's methods */
void h_ss_sizes(SimStruct *S) { mdlInitializeSizes(S); }
void h_ss_times(SimStruct *S) { mdlInitializeSampleTimes(S); }
void h_ss_indims(SimStruct *S, int port, const DimsInfo_T *d) { mdlSetInputPortDimensionInfo(S, port, d); }
void h_ss_outputs(SimStruct *S) { mdlOutputs(S, 0); }
void h_ss_end(SimStruct *S) { mdlTerminate(S); }
