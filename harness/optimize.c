// mrcal_optimize() with a stand-in for the solver: each "optimization" returns
// the residuals it was given beforehand
#include <stddef.h>
#include <string.h>
#include <dogleg.h>
#include "mrcal.h"

static const double* vf_x[4];
static int vf_n, vf_pass;
static dogleg_operatingPoint_t vf_op;
static dogleg_solverContext_t  vf_ctx;

void dogleg_getDefaultParameters(dogleg_parameters2_t* p) { p->max_iterations = 1; }
double dogleg_optimize2(double* p, unsigned int Nstate, unsigned int Nmeas, unsigned int NJnnz,
                        dogleg_callback_t* f, void* cookie, const dogleg_parameters2_t* parameters, dogleg_solverContext_t** ctx)
{
    if(vf_pass >= vf_n) return -1.0;
    vf_op.x = (double*)vf_x[vf_pass++];
    vf_op.p = p;
    vf_ctx.beforeStep = &vf_op;
    *ctx = &vf_ctx;
    return 1.0;
}
void dogleg_freeContext(dogleg_solverContext_t** ctx) { *ctx = NULL; }
void dogleg_testGradient(unsigned int var, const double* p0, unsigned int Nstate, unsigned int Nmeas, unsigned int NJnnz, dogleg_callback_t* f, void* cookie) {}

void vf_optimize(int* out, // optimizations run, board outliers, triangulated outliers, 1 if an error was reported
                 double* x_final,
                 const double* x0, const double* x1, int Nx,
                 mrcal_pose_t* rt_cam_ref, mrcal_pose_t* rt_ref_frame,
                 int Ncameras_intrinsics, int Ncameras_extrinsics, int Nframes,
                 const mrcal_observation_board_t* board, int Nboard,
                 const mrcal_observation_point_triangulated_t* tri, int Ntri,
                 mrcal_point3_t* pool, const mrcal_lensmodel_t* lensmodel, const double* intrinsics, const int* imagersizes,
                 mrcal_problem_selections_t sel, int W, int H)
{
    vf_x[0] = x0; vf_x[1] = x1; vf_n = 2; vf_pass = 0;
    mrcal_problem_constants_t constants;
    memset(&constants, 0, sizeof(constants));
    mrcal_stats_t s = mrcal_optimize(NULL, 0, x_final, Nx*(int)sizeof(double), (double*)intrinsics, rt_cam_ref, rt_ref_frame, NULL, NULL,
                                     Ncameras_intrinsics, Ncameras_extrinsics, Nframes, 0, 0,
                                     board, NULL, Nboard, 0, tri, Ntri, pool, NULL,
                                     lensmodel, imagersizes, sel, &constants, 0.1, W, H, false, false);
    out[0] = vf_pass;
    out[1] = s.Noutliers_board;
    out[2] = s.Noutliers_triangulated_point;
    out[3] = s.rms_reproj_error__pixels < 0.0;
}
