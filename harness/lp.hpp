// Common set-up of the linear controller for the scenarios.
#pragma once
#include <v.hpp>
#include <mpc/LMPC.hpp>

#ifdef VS_NX
#define LCTL mpc::LMPC<VS_NX, VS_NU, VS_NDU, VS_NY, VS_PH, VS_CH>
#define LSIZE mpc::MPCSize(VS_NX, VS_NU, VS_NDU, VS_NY, VS_PH, VS_CH, 0, 0)
#define TNX VS_NX
#define TNU VS_NU
#define TNDU VS_NDU
#define TNY VS_NY
#define TPH VS_PH
#define TCH VS_CH
#define MAKE_LCTL(c) LCTL c
#define INIT_PB(b) b.initialize()
#else
#define LCTL mpc::LMPC<>
#define LSIZE mpc::MPCSize(-1, -1, -1, -1, -1, -1, 0, 0)
#define TNX Eigen::Dynamic
#define TNU Eigen::Dynamic
#define TNDU Eigen::Dynamic
#define TNY Eigen::Dynamic
#define TPH Eigen::Dynamic
#define TCH Eigen::Dynamic
#define MAKE_LCTL(c) LCTL c(d.nx, d.nu, d.ndu, d.ny, d.ph, d.ch)
#define INIT_PB(b) b.initialize(d.nx, d.nu, d.ndu, d.ny, d.ph, d.ch)
#endif

struct LDims
{
    int nx, nu, ndu, ny, ph, ch;
    LDims()
    {
        nx = V::dim("nx", 1);
        nu = V::dim("nu", 1);
        ndu = V::dim("ndu", 0);
        ny = V::dim("ny", 0);
        ph = V::dim("ph", 1);
        ch = V::dim("ch", 1);
        V::assume(ch <= ph);
    }
};
