// mrcal_corresponding_icam_extrinsics() against its specification, for all index lists in the bounds
#include <stdio.h>
#include "mrcal.h"
#include "vh.h"
#ifdef __CPROVER
int fprintf(FILE* f, const char* fmt, ...) { (void)f; (void)fmt; return 0; }
#endif

HARNESS(icam)
{
    // the sizes are given: one query for each
    const int Nci = NCI, Nce = NCE, Nob = NBOARD, Nop = NPOINT;
    INPUT(int,icam);
    ASSUME(0<=icam && icam<Nci);

    // exact-size arrays: a read past an end is an error
    mrcal_observation_board_t* ob = malloc(sizeof(ob[0])*Nob + 1);
    mrcal_observation_point_t* op = malloc(sizeof(op[0])*Nop + 1);
    int I[NBOARD+NPOINT+1], X[NBOARD+NPOINT+1];
    int n = 0;
    for(int i=0;i<NBOARD;i++)
        if(i<Nob)
        {
            int bi, be;
            INPUT_INTO(int,board_intrinsics,bi); INPUT_INTO(int,board_extrinsics,be);
            ASSUME(0<=bi && bi<Nci); ASSUME(be<Nce && be>=-3);
            memset(&ob[i], 0, sizeof(ob[i]));
            ob[i].icam.intrinsics = bi; ob[i].icam.extrinsics = be; ob[i].iframe = i;
            I[n] = bi; X[n] = be<0 ? -1 : be; n++;
        }
    for(int i=0;i<NPOINT;i++)
        if(i<Nop)
        {
            int bi, be;
            INPUT_INTO(int,point_intrinsics,bi); INPUT_INTO(int,point_extrinsics,be);
            ASSUME(0<=bi && bi<Nci); ASSUME(be<Nce && be>=-3);
            memset(&op[i], 0, sizeof(op[i]));
            op[i].icam.intrinsics = bi; op[i].icam.extrinsics = be;
            I[n] = bi; X[n] = be<0 ? -1 : be; n++;
        }

    // The specification. The index lists are consistent if the same camera
    // always has the same extrinsics, and different cameras always have
    // different ones
    bool ok = (Nce == Nci || Nce+1 == Nci);
    for(int i=0;i<NBOARD+NPOINT;i++)
        for(int j=0;j<i;j++)
            if(i<n && (I[i]==I[j]) != (X[i]==X[j])) ok = false;
    bool seen = false;
    int expected = -1000;
    for(int i=0;i<NBOARD+NPOINT;i++)
        if(i<n && I[i]==icam) { seen = true; expected = X[i]; }

    int got = -777;
    const bool r = mrcal_corresponding_icam_extrinsics(&got, icam, Nci, Nce, Nob, ob, Nop, op);
    CHECK(r == (ok && seen), "success exactly if the lists are consistent, and the camera was observed");
    CHECK(!r || got == expected, "the extrinsics index of the camera, or -1 at the reference");
    CHECK(r || got == -777, "nothing is reported on failure");
    free(ob); free(op);
    REACH();
}
