/* Conformance driver for random polygons: triangulations, the toric symplectic chain, the samplers
   and the streaming error estimator. */
#include "vdrv.h"
#include <plCurve.h>
#include <tsmcmc.h>
#include <geyer_estimators.h>
#include <gsl/gsl_rng.h>

static int is(const char *s) { return !strcmp(tok[0], s); }
static long q(double x, double u) { double y = nearbyint(x * u); return fabs(y) < 2e9 ? (long)y : 2000000000L; }
static gsl_rng *rng;
static void seed(long s) { if (!rng) rng = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(rng, s); }

#include "tsmtri.h"
#include "tsmchain.h"
#include "tsmgeyer.h"
#include "tsmpoly.h"

static void episode_reset(void) { seed(1); memset(&gy, 0, sizeof gy); memset(&ch, 0, sizeof ch); if (xos) plc_xoshiro_free(xos); xos = NULL; }
static void run_command(void) { if (!tri_command() && !chain_command() && !geyer_command() && !poly_command()) abort(); }
