// Programs that all ranks carry out, as plain data (no pointers: also handed to copies of the engine loaded separately).
#pragma once
#include <complex>
#include <cstring>
struct POp {
    enum Kind { RING, BCAST, FUSE, MEAS, PROB, ALL, PROBS, VEC, GC, GCM, SAVE, ROT, XFER, NORM, PRINT, SUM, ADD };
    // FUSE: multiply into the next gate applied; SAVE: save and load again; ROT: load what the next rank saved;
    // XFER: rank q/8 sends its part to rank q%8, which keeps it; NORM: sum of squares over all ranks
    // SUM: the state plus the gate applied to it; ADD: the state plus the vector m
    int kind;
    int q;                 // measured qubit / bound of RING and BCAST ("largest qubit", -1: the largest one acted on)
    int k, t[4], nc, c[8], cv[8];
    std::complex<double> m[64];
};
struct PProg { int n, init, nops; POp ops[12]; std::complex<double> v[256]; };   // init 0: |0..0>, 1: |1..1>, 2: v
struct POut {
    int nout, kind[16];
    double x[16]; char s[16][40];
    int nv[16]; std::complex<double> v[4][256];   // vectors read (first 4)
    double p[4][256]; int np[4];
    int nvec, nprobs;
};
