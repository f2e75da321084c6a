#include "mrcal.h"
#include "vh.h"
#ifndef NMAX
#define NMAX 3
#endif

static void get_lensmodel(mrcal_lensmodel_t* m)
{
    memset(m,0,sizeof(*m));
#ifdef LENSTYPE
    const int type = (int)LENSTYPE;
#else
    INPUT(int,type);
    ASSUME(type >= 0 && type <= (int)MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC);
#endif
    m->type = type;
    if(type == (int)MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC)
    {
        INPUT(int,order);
        ASSUME(order==2 || order==3);
#ifdef SPLINE_NX
        const int Nx = SPLINE_NX, Ny = SPLINE_NY;
#else
        INPUT(int,Nx); INPUT(int,Ny);
        ASSUME(Nx>=4 && Nx<=SPLINE_N && Ny>=4 && Ny<=SPLINE_N);
#endif
        m->LENSMODEL_SPLINED_STEREOGRAPHIC__config.order = order;
        m->LENSMODEL_SPLINED_STEREOGRAPHIC__config.Nx    = Nx;
        m->LENSMODEL_SPLINED_STEREOGRAPHIC__config.Ny    = Ny;
        m->LENSMODEL_SPLINED_STEREOGRAPHIC__config.fov_x_deg = 100;
    }
}
static mrcal_problem_selections_t get_selections(void)
{
    mrcal_problem_selections_t s;
    memset(&s,0,sizeof(s));
    INPUT_BOOL(core); INPUT_BOOL(dist); INPUT_BOOL(extr); INPUT_BOOL(frames); INPUT_BOOL(warp); INPUT_BOOL(reg); INPUT_BOOL(outl); INPUT_BOOL(unity);
    s.do_optimize_intrinsics_core = core;
    s.do_optimize_intrinsics_distortions = dist;
    s.do_optimize_extrinsics = extr;
    s.do_optimize_frames = frames;
    s.do_optimize_calobject_warp = warp;
    s.do_apply_regularization = reg;
    s.do_apply_outlier_rejection = outl;
    s.do_apply_regularization_unity_cam01 = unity;
    return s;
}

// What the parameter counts are supposed to be: from the documentation
static int spec_nparams(const mrcal_lensmodel_t* m)
{
    switch((int)m->type)
    {
    case MRCAL_LENSMODEL_PINHOLE: case MRCAL_LENSMODEL_STEREOGRAPHIC:
    case MRCAL_LENSMODEL_LONLAT:  case MRCAL_LENSMODEL_LATLON:    return 4;
    case MRCAL_LENSMODEL_OPENCV4: return 8;
    case MRCAL_LENSMODEL_OPENCV5: return 9;
    case MRCAL_LENSMODEL_OPENCV8: return 12;
    case MRCAL_LENSMODEL_OPENCV12:return 16;
    case MRCAL_LENSMODEL_CAHVOR:  return 9;
    case MRCAL_LENSMODEL_CAHVORE: return 12;
    default: return 4 + 2*(int)m->LENSMODEL_SPLINED_STEREOGRAPHIC__config.Nx*(int)m->LENSMODEL_SPLINED_STEREOGRAPHIC__config.Ny;
    }
}
static int spec_nintrinsics_state(const mrcal_lensmodel_t* m, mrcal_problem_selections_t s)
{
    int n = spec_nparams(m);
    return (s.do_optimize_intrinsics_core ? 4 : 0) + (s.do_optimize_intrinsics_distortions ? n-4 : 0);
}

#define LAYOUT_ARGS Nci, Nce, Nf, Np, Npf, Nob, s, &m

#define LAYOUT_INPUTS                                                   \
    mrcal_lensmodel_t m; get_lensmodel(&m);                             \
    mrcal_problem_selections_t s = get_selections();                    \
    INPUT(int,Nci); INPUT(int,Nce); INPUT(int,Nf); INPUT(int,Np); INPUT(int,Npf); INPUT(int,Nob); \
    ASSUME(0<=Nci && Nci<=CMAX); ASSUME(0<=Nce && Nce<=CMAX);           \
    ASSUME(0<=Nf && Nf<=CMAX); ASSUME(0<=Np && Np<=CMAX); ASSUME(0<=Npf && Npf<=Np); ASSUME(0<=Nob && Nob<=CMAX)

HARNESS(state_layout)
{
    LAYOUT_INPUTS;

    const int npi  = spec_nintrinsics_state(&m,s);
    const int n_i  = Nci*npi;
    const int n_e  = s.do_optimize_extrinsics ? 6*Nce : 0;
    const int n_f  = s.do_optimize_frames     ? 6*Nf  : 0;
    const int n_p  = s.do_optimize_frames     ? 3*(Np-Npf) : 0;
    const int n_cw = (s.do_optimize_calobject_warp && Nob>0) ? 2 : 0;

    CHECK(mrcal_lensmodel_num_params(&m) == spec_nparams(&m), "number of lens parameters");
    CHECK(mrcal_num_intrinsics_optimization_params(s,&m) == npi, "optimized lens parameters per camera");
    CHECK(mrcal_num_states_intrinsics(Nci,s,&m) == n_i, "intrinsics block size");
    CHECK(mrcal_num_states_extrinsics(Nce,s)    == n_e, "extrinsics block size");
    CHECK(mrcal_num_states_frames(Nf,s)         == n_f, "frames block size");
    CHECK(mrcal_num_states_points(Np,Npf,s)     == n_p, "points block size");
    CHECK(mrcal_num_states_calobject_warp(s,Nob)== n_cw,"warp block size");
    CHECK(mrcal_num_states(LAYOUT_ARGS) == n_i+n_e+n_f+n_p+n_cw, "total state size is the sum of the blocks");

    INPUT(int,i);
    // any index at all: valid or not
    CHECK(mrcal_state_index_intrinsics(i,LAYOUT_ARGS) ==
          ((npi>0 && i>=0 && i<Nci) ? i*npi : -1), "intrinsics index");
    CHECK(mrcal_state_index_extrinsics(i,LAYOUT_ARGS) ==
          ((n_e>0 && i>=0 && i<Nce) ? n_i + 6*i : -1), "extrinsics index");
    CHECK(mrcal_state_index_frames(i,LAYOUT_ARGS) ==
          ((n_f>0 && i>=0 && i<Nf) ? n_i + n_e + 6*i : -1), "frames index");
    CHECK(mrcal_state_index_points(i,LAYOUT_ARGS) ==
          ((n_p>0 && i>=0 && i<Np-Npf) ? n_i + n_e + n_f + 3*i : -1), "points index");
    CHECK(mrcal_state_index_calobject_warp(LAYOUT_ARGS) ==
          (n_cw>0 ? n_i + n_e + n_f + n_p : -1), "warp index");
    REACH();
}

#ifndef NTRI
#define NTRI 5
#endif
#ifndef NOBS
#define NOBS 2
#endif

// arbitrary valid sequence of triangulated observations: each set has at least 2
static int get_tri(mrcal_observation_point_triangulated_t* o)
{
    INPUT(int,Nt);
    ASSUME(Nt>=0 && Nt<=NTRI);
    int n = 0;
    for(int i=0;i<NTRI;i++)
    {
        int last, ext;
        INPUT_INTO(int,last,last); INPUT_INTO(int,text,ext);
        ASSUME(last==0 || last==1);
        ASSUME(ext>=-1 && ext<2);
        memset(&o[i],0,sizeof(o[i]));
        o[i].icam.intrinsics = 0;
        o[i].icam.extrinsics = ext;
        o[i].last_in_set = last;
        if(i<Nt)
        {
            n++;
            if(last) { ASSUME(n>=2); n = 0; }
        }
    }
    ASSUME(n==0);
    return Nt;
}

HARNESS(measurement_layout)
{
    LAYOUT_INPUTS;
    INPUT(int,Nop); INPUT(int,w); INPUT(int,h);
    ASSUME(0<=Nop && Nop<=CMAX); ASSUME(0<=w && w<=4); ASSUME(0<=h && h<=4);
    mrcal_observation_point_triangulated_t tri[NTRI];
    const int Nt = get_tri(tri);

    // spec: one measurement for each pair of observations of a point
    int n_t = 0, npoints = 0;
    int start[NTRI+1];
    for(int i=0, i0=0; i<NTRI; i++)
        if(i<Nt)
        {
            n_t += i-i0;
            if(tri[i].last_in_set) { npoints++; start[npoints] = n_t; i0 = i+1; }
        }
    start[0] = 0;

    const int n_b = Nob*w*h*2;
    const int n_p = Nop*2;
    const int per_cam = s.do_apply_regularization ?
        ((s.do_optimize_intrinsics_distortions ? spec_nparams(&m)-4 : 0) +
         (s.do_optimize_intrinsics_core        ? 2 : 0)) : 0;
    const int n_r = Nci*per_cam + ((s.do_apply_regularization_unity_cam01 && s.do_optimize_extrinsics && Nce>0) ? 1 : 0);

    CHECK(mrcal_num_measurements_boards(Nob,w,h) == n_b, "board block size");
    CHECK(mrcal_num_measurements_points(Nop) == n_p, "point block size");
    CHECK(mrcal_num_measurements_points_triangulated(tri,Nt) == n_t, "triangulated block size: one for each pair of observations");
    CHECK(mrcal_num_measurements_points_triangulated(NULL,0) == 0, "no triangulated observations: no measurements");
    CHECK(mrcal_num_measurements_regularization(Nci,Nce,Nf,Np,Npf,Nob,s,&m) == n_r, "regularization block size");
    CHECK(mrcal_num_measurements(Nob,Nop,tri,Nt,w,h,Nci,Nce,Nf,Np,Npf,s,&m) == n_b+n_p+n_t+n_r, "total is the sum of the blocks");

    INPUT(int,i);
    ASSUME(i>=0 && i<=CMAX);
    if(i<Nob || Nob==0)
        CHECK(mrcal_measurement_index_boards(i,Nob,Nop,w,h) == (Nob>0 ? i*w*h*2 : -1), "board measurement index");
    if(i<Nop || Nop==0)
        CHECK(mrcal_measurement_index_points(i,Nob,Nop,w,h) == (Nop>0 ? n_b+2*i : -1), "point measurement index");
    if(i<npoints || Nt==0)
        CHECK(mrcal_measurement_index_points_triangulated(i,Nob,Nop,tri,Nt,w,h) == (Nt>0 ? n_b+n_p+start[i] : -1), "triangulated measurement index");
    CHECK(mrcal_measurement_index_points_triangulated(0,Nob,Nop,NULL,0,w,h) == -1, "triangulated block absent");
    CHECK(mrcal_measurement_index_regularization(tri,Nt,w,h,Nci,Nce,Nf,Np,Npf,Nob,Nop,s,&m) == (n_r>0 ? n_b+n_p+n_t : -1), "regularization measurement index");
    REACH();
}

// The prediction of the number of nonzero entries in the Jacobian against a row-by-row count
#ifndef WW
#define WW 2
#define HH 3
#endif
HARNESS(nnz_prediction)
{
    LAYOUT_INPUTS;
    ASSUME(Nob<=NOBS);
    INPUT(int,Nop);
    ASSUME(0<=Nop && Nop<=NOBS);
    const int w = WW, h = HH;
    mrcal_observation_point_triangulated_t tri[NTRI];
    const int Nt = get_tri(tri);
    mrcal_observation_board_t ob[NOBS];
    mrcal_observation_point_t op[NOBS];
    memset(ob,0,sizeof(ob)); memset(op,0,sizeof(op));

    // columns of the intrinsics touched by one row of an observation of any sort. Each row uses only one of fx,fy and of cx,cy
    const int order = m.LENSMODEL_SPLINED_STEREOGRAPHIC__config.order;
    const int ncore = s.do_optimize_intrinsics_core ? 2 : 0;
    const int ndist = !s.do_optimize_intrinsics_distortions ? 0 :
        (m.type == MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC ? (order+1)*(order+1) : spec_nparams(&m)-4);

    int N = 0;
    for(int i=0;i<NOBS;i++)
    {
        int e;
        INPUT_INTO(int,bext,e); ASSUME(e>=-1 && e<4);
        ob[i].icam.extrinsics = e;
        if(i<Nob)
        {
            int row = ncore+ndist +
                ((s.do_optimize_extrinsics && e>=0) ? 6 : 0) +
                (s.do_optimize_frames ? 6 : 0) +
                (s.do_optimize_calobject_warp ? 2 : 0);
            N += 2*w*h*row;
        }
    }
    for(int i=0;i<NOBS;i++)
    {
        int e,p;
        INPUT_INTO(int,pext,e); ASSUME(e>=-1 && e<4);
        INPUT_INTO(int,ip,p);   ASSUME(p>=0 && p<Np+(Np==0));
        op[i].icam.extrinsics = e;
        op[i].i_point = p;
        if(i<Nop)
        {
            int row = ncore+ndist +
                ((s.do_optimize_extrinsics && e>=0) ? 6 : 0) +
                ((s.do_optimize_frames && p < Np-Npf) ? 3 : 0);
            N += 2*row;
        }
    }
    for(int i0=0; i0<NTRI; i0++)
        if(i0<Nt && !tri[i0].last_in_set)
        {
            bool done = false;
            for(int i1=i0+1; i1<NTRI; i1++)
                if(!done && i1<Nt)
                {
                    N += 2*(ncore+ndist) +
                        ((s.do_optimize_extrinsics && tri[i0].icam.extrinsics>=0) ? 6 : 0) +
                        ((s.do_optimize_extrinsics && tri[i1].icam.extrinsics>=0) ? 6 : 0);
                    if(tri[i1].last_in_set) done = true;
                }
        }
    if(s.do_apply_regularization)
    {
        // one entry for each center pixel term, one for each distortion term (2 if splined)
        if(s.do_optimize_intrinsics_core)        N += Nci*2;
        if(s.do_optimize_intrinsics_distortions) N += Nci*(spec_nparams(&m)-4)*
            (m.type == MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC ? 2 : 1);
    }
    if(s.do_apply_regularization_unity_cam01 && s.do_optimize_extrinsics && Nce>0) N += 3;

    CHECK(_mrcal_num_j_nonzero(Nob,Nop,tri,Nt,w,h,Nci,Nce,Nf,Np,Npf,ob,op,s,&m) == N, "predicted number of Jacobian nonzeros");
    REACH();
}

// Each measurement of a triangulated point decodes to its own pair of observations
#if defined __CPROVER && defined SQRT_TABLE
#include "sqrt_table.h" // correctly-rounded square roots of small integers
double sqrt(double x)
{
    for(int i=0; i<(int)(sizeof(sqrt_table)/sizeof(sqrt_table[0])); i++)
        if(x == (double)i) return sqrt_table[i];
    __CPROVER_assert(0, "sqrt() argument is in the table");
    return 0;
}
#endif
HARNESS(decode_triangulated)
{
    mrcal_observation_point_triangulated_t tri[NTRI];
    const int Nt = get_tri(tri);
    INPUT(int,im);
    ASSUME(im >= 0 && im <= NTRI*NTRI);

    bool expected = false;
    int n=0, i_first=0, ip=0;
    int e0=0,e1=0,ef=0,eip=0,eset=0;
    for(int i1=0; i1<NTRI; i1++)
        if(i1<Nt)
        {
            if(tri[i1].last_in_set)
            {
                for(int a=0;a<NTRI;a++)
                    for(int b=a+1;b<NTRI;b++)
                        if(a>=i_first && b<=i1)
                        {
                            if(n==im) { expected=true; e0=a; e1=b; ef=i_first; eip=ip; eset=i1-i_first+1; }
                            n++;
                        }
                ip++;
                i_first = i1+1;
            }
        }
    CHECK(mrcal_num_measurements_points_triangulated(tri,Nt) == n, "the decoded pairs are exactly the measurements");

    int o0=-1,o1=-1,op0=-1,No=-1,Nm=-1,ipoint=-1;
    bool r = mrcal_decode_observation_indices_points_triangulated(&o0,&o1,&op0,&No,&Nm,&ipoint, im, tri, Nt);
    CHECK(r == expected, "exactly the existing measurements decode");
    if(expected)
    {
        CHECK(o0 == e0, "first observation of the pair");
        CHECK(o1 == e1, "second observation of the pair");
        CHECK(op0 == ef, "first observation of the point");
        CHECK(No == eset, "number of observations of this point");
        CHECK(Nm == eset*(eset-1)/2, "number of measurements of this point");
        CHECK(ipoint == eip, "point index");
    }
    REACH();
}
