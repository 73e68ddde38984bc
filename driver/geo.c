/* Conformance driver for splines and for the geometry of vectors. */
#include "vdrv.h"
#include <plCurve.h>
#include <gsl/gsl_rng.h>
static int is(const char *s) { return !strcmp(tok[0], s); }
static long q(double x, double u) { double y = nearbyint(x * u); return fabs(y) < 2e9 ? (long)y : 2000000000L; }
static int at; static long num(void) { return ti(at++); }
static plc_vector vec(void) { plc_vector v; for (int k = 0; k < 3; k++) v.c[k] = num(); return v; }
static void pv(const char *nm, plc_vector v, double u) { vput(",\"%s\":[%ld,%ld,%ld]", nm, q(v.c[0], u), q(v.c[1], u), q(v.c[2], u)); }
static void v3(plc_vector v, double u) { vput("[%ld,%ld,%ld]", q(v.c[0], u), q(v.c[1], u), q(v.c[2], u)); }
static plc_spline *sp;
static void episode_reset(void) { sp = NULL; }

static plc_color clr(int c, int j) { return (plc_color){ ((c * 7 + j * 3) % 11) / 10.0, (j % 5) / 4.0, (j * j % 7) / 6.0, 1 - (j % 3) / 4.0 }; }
static void run_command(void) {
  if (is("spline")) {                        /* spline nc (nv open cc)* coords */
    at = 1; int nc = num(), nv[64], cc[64]; bool op[64]; for (int i = 0; i < nc; i++) { nv[i] = num(); op[i] = num(); cc[i] = num(); }
    plCurve *L = plc_new(nc, nv, op, cc); for (int i = 0; i < nc; i++) { for (int j = 0; j < nv[i]; j++) L->cp[i].vt[j] = vec(); for (int j = 0; j < cc[i]; j++) L->cp[i].clr[j] = clr(i, j); }
    plc_fix_wrap(L); plCurve *K = plc_copy(L); bool ok = false; if (sp) plc_spline_free(sp); sp = plc_convert_to_spline(L, &ok);
    int kept = 1; for (int i = 0; i < nc; i++) for (int j = -1; j <= nv[i]; j++) kept &= plc_distance(L->cp[i].vt[j], K->cp[i].vt[j]) == 0; plc_free(L);
    vput("{\"op\":\"spline\",\"ok\":%d,\"kept\":%d,\"nc\":%d,\"cp\":[", ok, kept, sp->nc);
    for (int i = 0; i < nc; i++) { vput("%s{\"open\":%d,\"ns\":%d,\"cc\":%d,\"v\":[", i ? "," : "", sp->cp[i].open, sp->cp[i].ns, sp->cp[i].cc); for (int j = 0; j < nv[i]; j++) { if (j) vput(","); v3(K->cp[i].vt[j], 1); }
      int np = op[i] ? nv[i] - 1 : nv[i]; double s = 0, len = 0; for (int j = 0; j < np; j++) len += plc_distance(K->cp[i].vt[j], K->cp[i].vt[j + 1]);
      vput("],\"pc\":["); for (int j = 0; j < np; j++) { double h = plc_distance(K->cp[i].vt[j], K->cp[i].vt[j + 1]), d = 1e-8 * h, o = op[i] ? 0 : (j % 3 - 1) * len;
        vput("%s{\"h\":%ld,\"p\":[", j ? "," : "", q(h, 1)); for (int k = 0; k <= 3; k++) { if (k) vput(","); double x = k == 3 ? s + h : s + h * k / 3; if (op[i] && x > len) x = len; v3(plc_sample_spline(sp, i, x + o), 1e4); }
        vput("],\"t\":["); v3(plc_spline_tangent(sp, i, s + d + o), 1e4); vput(","); v3(plc_spline_tangent(sp, i, s + h / 2 + o), 1e4); vput(","); v3(plc_spline_tangent(sp, i, s + h - d + o), 1e4); vput("]}"); s += h; }
      vput("]}"); }
    vput("]}"); vflush(); plc_free(K); return;
  }
  if (is("resample")) {                      /* resample nv* */
    at = 1; int nv[64]; for (int i = 0; i < sp->nc; i++) nv[i] = num();
    plCurve *M = plc_convert_from_spline(sp, nv); vput("{\"op\":\"resample\",\"nc\":%d,\"cp\":[", M->nc);
    for (int i = 0; i < M->nc; i++) { int n = M->cp[i].nv, o = M->cp[i].open; double len = sp->cp[i].svals[sp->cp[i].ns - o]; plc_vector *v = M->cp[i].vt;
      vput("%s{\"open\":%d,\"want\":%d,\"nv\":%d,\"cc\":%d,\"wrap\":%d,\"v\":[", i ? "," : "", o, nv[i], n, M->cp[i].cc, plc_distance(v[-1], o ? v[1] : v[n - 1]) == 0 && plc_distance(v[n], o ? v[n - 2] : v[0]) == 0);
      for (int j = 0; j < n; j++) { if (j) vput(","); v3(v[j], 1e4); } vput("],\"s\":["); for (int j = 0; j < n; j++) { double s = o ? (j == n - 1 ? len : len * j / (n - 1)) : len * j / n; if (j) vput(","); v3(plc_sample_spline(sp, i, s), 1e4); }
      vput("],\"c\":["); for (int j = 0; j < M->cp[i].cc; j++) { plc_color c = M->cp[i].clr[j]; vput("%s[%ld,%ld,%ld,%ld]", j ? "," : "", q(c.r, 1e4), q(c.g, 1e4), q(c.b, 1e4), q(c.alpha, 1e4)); }
      vput("],\"c0\":["); for (int j = 0; j < sp->cp[i].cc; j++) { plc_color c = clr(i, j); vput("%s[%ld,%ld,%ld,%ld]", j ? "," : "", q(c.r, 1e4), q(c.g, 1e4), q(c.b, 1e4), q(c.alpha, 1e4)); } vput("]}"); }
    vput("]}"); vflush(); plc_free(M); return;
  }
  if (is("unspline")) { plc_spline_free(sp); plc_spline_free(NULL); sp = NULL; vput("{\"op\":\"unspline\"}"); vflush(); return; }
  if (is("vec")) {                           /* vec s t A B C D */
    at = 1; long s = num(), t = num(); plc_vector A = vec(), B = vec(), C = vec(), D = vec(), X; bool ok; double r;
    vput("{\"op\":\"vec\",\"s\":%ld,\"t\":%ld", s, t); pv("A", A, 1); pv("B", B, 1); pv("C", C, 1); pv("D", D, 1);
    pv("sum", plc_vect_sum(A, B), 1); pv("diff", plc_vect_diff(A, B), 1); pv("cross", plc_cross_prod(A, B), 1); pv("scale", plc_scale_vect(s, A), 1);
    pv("lin", plc_vlincomb(s, A, t, B), 1); pv("madd", plc_vmadd(A, s, B), 1); pv("wei", plc_vweighted(s / 4.0, A, B), 4); pv("mul", plc_component_mult(A, B), 1); pv("build", plc_build_vect(s, t, s - t), 1);
    ok = false; X = plc_component_div(A, B, &ok); vput(",\"divok\":%d", ok); pv("div", ok ? X : A, 1e4);
    vput(",\"dot\":%ld,\"norm\":%ld,\"dist\":%ld,\"sq\":%ld,\"eq\":[%d,%d,%d]", q(plc_dot_prod(A, B), 1), q(plc_norm(A), 1e3), q(plc_distance(A, B), 1e3), q(plc_sq_dist(A, B), 1), plc_vecteq(A, B), plc_vecteq(A, A), plc_vecteq(A, plc_vect_sum(A, plc_build_vect(0, 0, 1e-9))));
    ok = false; X = plc_normalize_vect(A, &ok); vput(",\"nok\":%d", ok); pv("unit", ok ? X : A, 1e4);
    r = plc_angle(A, B, &ok); vput(",\"aok\":%d,\"ang\":[%ld,%ld]", ok, q(cos(r), 1e4), q(sin(r), 1e4)); vput(",\"arange\":%d", !ok || (r >= 0 && r <= 3.14159266));
    X = plc_normal(A, B, C, &ok); vput(",\"pok\":%d", ok); pv("nor", ok ? X : A, 1e4);
    r = plc_dihedral_angle(A, B, C, D, &ok); vput(",\"dok\":%d,\"dih\":[%ld,%ld],\"drange\":%d", ok, q(cos(r), 1e4), q(sin(r), 1e4), !ok || (r >= 0 && r <= 6.2831854)); r = plc_dihedral_angle(A, B, C, D, NULL) - r; vput(",\"dnull\":%d", r == 0);
    X = plc_3plane_intersection(A, D, B, C, C, A, &ok); vput(",\"tok\":%d", ok); pv("three", ok ? X : A, 1e4);
    vput(",\"inr\":%ld", q(plc_tetrahedron_inradius(A, B, C, D), 1e4));
    plc_vector a = A, b = B, c = C; a.c[2] = b.c[2] = c.c[2] = 0; r = -1; X = plc_circumcenter(a, b, c, &r, &ok); vput(",\"cok\":%d,\"crad\":%ld", ok, ok ? q(r, 1e4) : 0L); pv("cen", ok ? X : A, 1e4);
    X = plc_circumcenter(a, b, c, NULL, &ok); pv("cen2", ok ? X : A, 1e4); plc_circumcenter(A, B, C, &r, &ok); vput(",\"cflat\":%d", ok);
    vput("}"); vflush(); return;
  }
  if (is("turn")) {                          /* turn c s r  axis V : angle with cosine c / r and sine s / r; and the distance of two angles on the circle */
    at = 1; long c = num(), s = num(), r = num(); plc_vector ax = vec(), V = vec(); double th = atan2(s, c); long k = num(), m = num();
    vput("{\"op\":\"turn\",\"c\":%ld,\"s\":%ld,\"r\":%ld,\"k\":%ld,\"m\":%ld", c, s, r, k, m); pv("ax", ax, 1); pv("V", V, 1); pv("W", plc_rotate_vect(V, ax, th + 2 * M_PI * (k % 3)), 1e4);
    vput(",\"ad\":%ld}", q(plc_angle_dist(k * M_PI / 12, m * M_PI / 12), 12e4 / M_PI)); vflush(); return;
  }
  if (is("dihedrals")) {                     /* dihedrals cap n coords */
    at = 1; unsigned cap = num(); int n = num(), cc = 0; bool op = false; plCurve *L = plc_new(1, &n, &op, &cc); for (int j = 0; j < n; j++) L->cp[0].vt[j] = vec(); plc_fix_wrap(L);
    unsigned m = cap; float *a = plc_dihedral_angles(L, &m); vput("{\"op\":\"dihedrals\",\"cap\":%u,\"m\":%u,\"v\":[", cap, m); for (int j = 0; j < n; j++) { if (j) vput(","); v3(L->cp[0].vt[j], 1); }
    vput("],\"a\":["); for (unsigned i = 0; i < m; i++) vput("%s%ld", i ? "," : "", a[i] == -1 ? 99999L : a[i] >= 0 && a[i] < 3.141594 ? q(cos(a[i]), 1e4) : 88888L); vput("]}"); vflush(); free(a); plc_free(L); return;
  }
  abort();
}
