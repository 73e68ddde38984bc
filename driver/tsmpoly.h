/* ---- samplers of random polygons, and the closing of open ones ---- */
#include <plcRandomSap.h>
double plc_xoshiro_uniform(uint64_t *xos);
static uint64_t *xos;
static plCurve *sample(const char *k, int n) {
  if (!strcmp(k, "closed")) return plc_random_closed_polygon(rng, n);
  if (!strcmp(k, "open")) return plc_random_open_polygon(rng, n);
  if (!strcmp(k, "pclosed")) return plc_random_closed_plane_polygon(rng, n);
  if (!strcmp(k, "popen")) return plc_random_open_plane_polygon(rng, n);
  if (!strcmp(k, "eclosed")) return plc_random_equilateral_closed_polygon(rng, n);
  if (!strcmp(k, "eopen")) return plc_random_equilateral_open_polygon(rng, n);
  if (!strcmp(k, "sap")) return plc_random_equilateral_closed_self_avoiding_polygon(xos, n);
  abort();
}
static void pseed(long s) { seed(s); if (xos) plc_xoshiro_free(xos); xos = plc_xoshiro_init((uint64_t)s); }
static int apart(plCurve *L) { int n = L->cp[0].nv; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (plc_sq_dist(L->cp[0].vt[i], L->cp[0].vt[j]) < 1 - 1e-8) return 0; return 1; }
static void put_verts(plCurve *L, int c) {
  vput("["); for (int i = 0; i < L->cp[c].nv; i++) { plc_vector v = L->cp[c].vt[i]; vput("%s[%ld,%ld,%ld]", i ? "," : "", q(v.c[0], 1e6), q(v.c[1], 1e6), q(v.c[2], 1e6)); } vput("]");
}
static int wrapped(plCurve *L, int c) {
  int n = L->cp[c].nv; plc_vector *v = L->cp[c].vt, a = v[n - 1], b = v[0];
  if (L->cp[c].open) { a = v[1]; b = v[n - 2]; }
  return plc_distance(v[-1], a) < 1e-9 && plc_distance(v[n], b) < 1e-9;
}
/* running moments */
typedef struct { double n, s, s2; } mom;
static void mom_add(mom *m, double x) { m->n++; m->s += x; m->s2 += x * x; }
static double mom_mean(mom *m) { return m->s / m->n; }
static double mom_se(mom *m) { double v = m->s2 / m->n - mom_mean(m) * mom_mean(m); return sqrt((v > 0 ? v : 0) / m->n); }
static void put_mom(const char *nm, mom *m, int k, double u) {
  vput(",\"%s\":[", nm); for (int i = 0; i < k; i++) vput("%s[%ld,%ld]", i ? "," : "", isfinite(m[i].s) ? q(mom_mean(&m[i]), u) : 2000000000L, isfinite(m[i].s2) ? q(mom_se(&m[i]), u) + 1 : 0); vput("]");
}
/* squared chords from every start (row i, column k - 1), the volume of three edges, and the first moments of the edges */
static void moments(plCurve *L, int n, mom *ch2, mom *vol, mom *dir) {
  plc_vector *v = L->cp[0].vt; int open = L->cp[0].open;
  for (int i = 0; i < (open ? n + 1 : n); i++) for (int k = 1; k < n + open; k++) {
    if (open && i + k > n) continue;
    plc_vector w = plc_vect_diff(v[open ? i + k : (i + k) % n], v[i]); mom_add(&ch2[i * (n + 1) + k], plc_dot_prod(w, w)); }
  plc_vector e[3]; int st[3] = {0, 1, 2}; for (int j = 0; j < 3; j++) e[j] = plc_vect_diff(v[(st[j] + 1) % (n + open)], v[st[j] % (n + open)]);
  mom_add(vol, plc_dot_prod(e[0], plc_cross_prod(e[1], e[2])));
  for (int j = 0; j < 3; j++) { mom_add(&dir[j], e[0].c[j]); mom_add(&dir[3 + j], e[0].c[j] * e[0].c[j]); mom_add(&dir[6 + j], e[0].c[j] * e[0].c[(j + 1) % 3]); }
}

static int poly_command(void) {
  if (is("polygon")) {                       /* polygon kind n seed */
    int n = ti(2); pseed(ti(3)); plCurve *L = sample(tok[1], n);
    vput("{\"op\":\"polygon\",\"k\":"); vstr(tok[1]); vput(",\"n\":%d,\"nc\":%d,\"nv\":%d,\"open\":%d,\"cc\":%d,\"cst\":%d,\"wrap\":%d", n, L->nc, L->cp[0].nv, L->cp[0].open, L->cp[0].cc, L->cst != NULL, wrapped(L, 0));
    plc_vector *v = L->cp[0].vt; int m = L->cp[0].nv, ne = L->cp[0].open ? m - 1 : m; double len = 0, flat = 0, lo = 1e9;
    vput(",\"el\":["); for (int i = 0; i < ne; i++) { double x = plc_distance(v[(i + 1) % m], v[i]); len += x; vput("%s%ld", i ? "," : "", isfinite(x) ? q(x, 1e6) : -1L); } vput("]");
    for (int i = 1; i < m && i < 12; i++) for (int j = 1; j < i; j++) for (int k = 1; k < j; k++) { double x = fabs(plc_dot_prod(plc_vect_diff(v[i], v[0]), plc_cross_prod(plc_vect_diff(v[j], v[0]), plc_vect_diff(v[k], v[0])))); if (!(x <= flat)) flat = x; }
    for (int i = 0; i < m; i++) for (int j = 0; j < i; j++) { double x = plc_sq_dist(v[i], v[j]); if (!(x >= lo)) lo = x; }
    vput(",\"len\":%ld,\"flat\":%ld,\"near\":%ld,\"sap\":%d}", q(len, 1e6), q(flat, 1e9), q(lo, 1e6), !strcmp(tok[1], "sap") ? plc_is_sap(L) : -1); vflush();
    plc_free(L); return 1;
  }
  if (is("again")) {                         /* again kind n seed: the same seed gives the same polygon */
    int n = ti(2); pseed(ti(3)); plCurve *A = sample(tok[1], n), *C = sample(tok[1], n); pseed(ti(3)); plCurve *B = sample(tok[1], n);
    int same = A->cp[0].nv == B->cp[0].nv, diff = 0; for (int i = 0; same && i < A->cp[0].nv; i++) { if (plc_distance(A->cp[0].vt[i], B->cp[0].vt[i]) != 0) same = 0; if (plc_distance(A->cp[0].vt[i], C->cp[0].vt[i]) != 0) diff = 1; }
    vput("{\"op\":\"again\",\"same\":%d,\"diff\":%d}", same, diff); vflush(); plc_free(A); plc_free(B); plc_free(C); return 1;
  }
  if (is("moments")) {                       /* moments kind n seed count */
    int n = ti(2), N = ti(4); pseed(ti(3)); mom *c = calloc((n + 1) * (n + 1), sizeof(mom)), vol = {0}, dir[9] = {{0}};
    for (int i = 0; i < N; i++) { plCurve *L = sample(tok[1], n); moments(L, n, c, &vol, dir); plc_free(L); }
    vput("{\"op\":\"moments\",\"k\":"); vstr(tok[1]); vput(",\"n\":%d,\"N\":%d", n, N);
    vput(",\"c\":["); for (int i = 0; i < n; i++) { vput("%s[", i ? "," : ""); int first = 1; for (int k = 1; k <= n; k++) { mom *m = &c[i * (n + 1) + k]; if (!m->n) continue; vput("%s[%ld,%ld]", first ? "" : ",", isfinite(m->s) ? q(mom_mean(m), 1e5) : 2000000000L, q(mom_se(m), 1e5) + 1); first = 0; } vput("]"); } vput("]");
    if (!strcmp(tok[1], "sap")) {            /* and by throwing away the others, from the plain equilateral sampler */
      mom *r = calloc((n + 1) * (n + 1), sizeof(mom)), v2 = {0}, d2[9] = {{0}}; int got = 0;
      while (got < N / 4) { plCurve *L = plc_random_equilateral_closed_polygon(rng, n); if (apart(L)) { got++; moments(L, n, r, &v2, d2); } plc_free(L); }
      put_mom("ref", &r[1], n - 1, 1e5); free(r);
    }
    put_mom("vol", &vol, 1, 1e6); put_mom("dir", dir, 9, 1e5); vput("}"); vflush(); free(c); return 1;
  }
  if (is("sphere") || is("ball")) {          /* sphere seed count ; ball seed count radius */
    int N = ti(2); srand(ti(1)); seed(ti(1)); mom d[9] = {{0}}, cap[6] = {{0}}; double worst = 0, R = is("ball") ? td(3) : 1; plc_vector o = plc_build_vect(1, -2, .5);
    for (int i = 0; i < N; i++) { plc_vector v = o; if (is("ball")) { plc_perturb_vect(rng, &v, R); v = plc_vect_diff(v, o); } else v = plc_random_vect();
      double x = is("ball") ? plc_norm(v) : fabs(plc_norm(v) - 1); if (!(x <= worst)) worst = x;
      v = plc_scale_vect(1 / R, v);
      for (int j = 0; j < 3; j++) { mom_add(&d[j], v.c[j]); mom_add(&d[3 + j], v.c[j] * v.c[j]); mom_add(&d[6 + j], v.c[j] * v.c[(j + 1) % 3]); mom_add(&cap[j], v.c[j] > .96); mom_add(&cap[3 + j], v.c[j] < -.96); } }
    vput("{\"op\":\"%s\",\"N\":%d,\"worst\":%ld,\"R\":%ld", tok[0], N, q(worst, 1e9), q(R, 1e9)); put_mom("dir", d, 9, 1e5); put_mom("cap", cap, 6, 1e5); vput("}"); vflush(); return 1;
  }
  if (is("xoshiro")) {                       /* xoshiro seed count */
    uint64_t *a = plc_xoshiro_init((uint64_t)ti(1)), *b = plc_xoshiro_init((uint64_t)ti(1)), *c = plc_xoshiro_init((uint64_t)ti(1) + 1); int N = ti(2), same = 1, out = 0, other = 0; mom m[12] = {{0}}; double prev = .5;
    for (int i = 0; i < N; i++) { double x = plc_xoshiro_uniform(a), y = plc_xoshiro_uniform(b), z = plc_xoshiro_uniform(c); same &= x == y; other += x == z; out += !(x >= 0 && x < 1);
      mom_add(&m[0], x); mom_add(&m[1], (x - .5) * (prev - .5)); for (int k = 0; k < 10; k++) mom_add(&m[2 + k], (int)(x * 1024 * (1 << k)) & 1); prev = x; }
    vput("{\"op\":\"xoshiro\",\"N\":%d,\"same\":%d,\"out\":%d,\"other\":%d", N, same, out, other); put_mom("m", m, 12, 1e5); vput("}"); vflush(); plc_xoshiro_free(a); plc_xoshiro_free(b); plc_xoshiro_free(c); return 1;
  }
  if (is("issap")) {                         /* issap unit nc nv* coords : tenths */
    int nc = ti(1), nv[8], cc[8] = {0}, at = 2; bool op[8]; for (int i = 0; i < nc; i++) { nv[i] = ti(at++); op[i] = nv[i] < 3 || i % 2; }
    plCurve *L = plc_new(nc, nv, op, cc); vput("{\"op\":\"issap\",\"p\":["); int first = 1;
    for (int i = 0; i < nc; i++) for (int j = 0; j < nv[i]; j++) { vput("%s[%d,%d,%d]", first ? "" : ",", ti(at), ti(at + 1), ti(at + 2)); first = 0; for (int k = 0; k < 3; k++) L->cp[i].vt[j].c[k] = ti(at++) / 10.0; }
    plc_fix_wrap(L); vput("],\"r\":%d}", plc_is_sap(L)); vflush(); plc_free(L); return 1;
  }
  if (is("close")) {                         /* close seed cp nEdges scale reps  nc (nv open cc)*  coords */
    int cp = ti(2), ne = ti(3), reps = ti(5), nc = ti(6), nv[8], cc[8], at = 7; bool op[8]; double u = td(4); pseed(ti(1));
    for (int i = 0; i < nc; i++) { nv[i] = ti(at++); op[i] = ti(at++); cc[i] = ti(at++); }
    plCurve *L = plc_new(nc, nv, op, cc); int col = 0;
    for (int i = 0; i < nc; i++) { for (int j = 0; j < nv[i]; j++) for (int k = 0; k < 3; k++) L->cp[i].vt[j].c[k] = ti(at++) * u; for (int j = 0; j < cc[i]; j++) L->cp[i].clr[j] = (plc_color){ .01 * ++col, .5, .25, 1 }; }
    plc_fix_wrap(L); plCurve *K = plc_copy(L);
    double len = 0; for (int i = 0; i < nc; i++) for (int j = 0; j < nv[i] - op[i]; j++) len += plc_distance(L->cp[i].vt[j], L->cp[i].vt[(j + 1) % nv[i]]);
    vput("{\"op\":\"close\",\"cp\":%d,\"ne\":%d,\"open\":%d,\"nv\":%d,\"len\":%ld,\"gap\":%ld", cp, ne, op[cp], nv[cp], q(len, 1e6), q(plc_distance(L->cp[cp].vt[0], L->cp[cp].vt[nv[cp] - 1]), 1e6));
    int m = ne - (nv[cp] - 1), lim = m < 64 ? m : 64; mom mean[3 * 64]; memset(mean, 0, sizeof mean); plCurve *C = NULL;
    for (int r = 0; r < reps; r++) { if (C) plc_free(C); C = plc_loop_closure(rng, cp, L, ne); if (!C) break; for (int j = 0; j < lim; j++) for (int k = 0; k < 3; k++) mom_add(&mean[3 * j + k], C->cp[cp].vt[(nv[cp] + j) % ne].c[k] - C->cp[cp].vt[(nv[cp] + j + ne - 1) % ne].c[k]); }
    int same = L->nc == K->nc; for (int i = 0; same && i < nc; i++) for (int j = -1; j <= nv[i]; j++) if (plc_distance(L->cp[i].vt[j], K->cp[i].vt[j]) != 0) same = 0;
    vput(",\"kept\":%d,\"made\":%d", same, C != NULL);
    if (C) { double l2 = 0; int others = C->nc == nc, wrap = 1; for (int i = 0; i < C->nc; i++) { wrap &= wrapped(C, i); for (int j = 0; j < C->cp[i].nv - C->cp[i].open; j++) l2 += plc_distance(C->cp[i].vt[j], C->cp[i].vt[(j + 1) % C->cp[i].nv]); }
      for (int i = 0; others && i < nc; i++) if (i != cp) { if (C->cp[i].nv != nv[i] || C->cp[i].open != op[i] || C->cp[i].cc != cc[i]) others = 0; for (int j = 0; others && j < nv[i]; j++) if (plc_distance(C->cp[i].vt[j], L->cp[i].vt[j]) != 0) others = 0; for (int j = 0; others && j < cc[i]; j++) if (C->cp[i].clr[j].r != L->cp[i].clr[j].r) others = 0; }
      int clr = 1; for (int j = 0; j < cc[cp] && j < C->cp[cp].cc; j++) clr &= C->cp[cp].clr[j].r == L->cp[cp].clr[j].r;
      vput(",\"len2\":%ld,\"others\":%d,\"wrap\":%d,\"cnv\":%d,\"copen\":%d,\"ccc\":%d,\"icc\":%d,\"clr\":%d,\"reps\":%d", q(l2, 1e6), others, wrap, C->cp[cp].nv, C->cp[cp].open, C->cp[cp].cc, cc[cp], clr, reps);
      vput(",\"v0\":"); put_verts(L, cp); vput(",\"v\":"); put_verts(C, cp); put_mom("mean", mean, 3 * lim, 1e5); plc_free(C); }
    vput("}"); vflush(); plc_free(L); plc_free(K); return 1;
  }
  return 0;
}
