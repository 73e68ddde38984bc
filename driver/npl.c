/* Conformance driver for curves and vectors of any dimension (nplCurve.h). */
#include "vdrv.h"
#include <float.h>
#include <nplCurve.h>
static int is(const char *s) { return !strcmp(tok[0], s); }
static int at; static long num(void) { return ti(at++); }
static double U = 1;                          /* the size of the specification's grid */
static long grid(double x) { double y = nearbyint(x / U); return fabs(y) < 2e6 && fabs(x - y * U) <= 1e-14 * fabs(x) ? (long)y : 2000000000L; }
static long q(double x, double u) { double y = nearbyint(x * u); return fabs(y) < 2e9 ? (long)y : 2000000000L; }
static nplCurve *R[4];
static void episode_reset(void) { memset(R, 0, sizeof R); U = 1; }

static void pvec(nplc_vector v) { vput("["); for (int k = 0; k < v.n; k++) vput("%s%ld", k ? "," : "", grid(v.c[k])); vput("]"); }
static void put_curve(nplCurve *L) {
  vput("{\"dim\":%d,\"cp\":[", nplc_dim(L));
  for (int i = 0; i < L->nc; i++) {
    nplc_strand *s = &L->cp[i]; vput("%s{\"open\":%d,\"vt\":[", i ? "," : "", s->open);
    for (int j = 0; j < s->nv; j++) { if (j) vput(","); pvec(s->vt[j]); }
    vput("],\"hid\":["); pvec(s->vt[-1]); vput(","); pvec(s->vt[s->nv]); vput("],\"clr\":[");
    for (int j = 0; j < s->cc; j++) vput("%s[%ld,%ld,%ld,%ld]", j ? "," : "", grid(s->clr[j].r), grid(s->clr[j].g), grid(s->clr[j].b), grid(s->clr[j].alpha));
    vput("]}");
  }
  vput("]}");
}
/* have the registers other than r kept every bit they had? */
static unsigned long mix(unsigned long h, const void *p, size_t n) { const unsigned char *c = p; while (n--) h = (h ^ *c++) * 1099511628211UL; return h; }
static unsigned long sum_of(nplCurve *L) {
  unsigned long h = 14695981039346656037UL; if (!L) return h;
  for (int i = 0; i < L->nc; i++) { nplc_strand *s = &L->cp[i]; h = mix(h, &s->nv, sizeof(int)); h = mix(h, &s->open, sizeof(bool)); h = mix(h, &s->cc, sizeof(int));
    for (int j = -1; j <= s->nv; j++) h = mix(h, s->vt[j].c, s->vt[j].n * sizeof(double));
    h = mix(h, s->clr, s->cc * sizeof(nplc_color)); }
  return h;
}
static unsigned long sums[4];
static void note(void) { for (int i = 0; i < 4; i++) sums[i] = sum_of(R[i]); }
static int kept(int r) { for (int i = 0; i < 4; i++) if (i != r && sums[i] != sum_of(R[i])) return 0; return 1; }
static void put_in(int r, nplCurve *L) { if (R[r] && R[r] != L) nplc_free(R[r]); R[r] = L; }

static int numtok(const char *s, double *v, int *isint) {
  char *e; *v = strtod(s, &e); if (*e || e == s) return 0;
  const char *p = s; if (*p == '+' || *p == '-') p++;
  *isint = *p != 0 && strspn(p, "0123456789") == strlen(p) && fabs(*v) < 1e9;
  return 1;
}
/* items of a text; numbers before the coordinates count something, later ones lie on the grid */
static void put_items(const char *text) {
  vput("["); int first = 1, seen = 0; long head = 4, nc = 0; const char *p = text;
  while (*p) {
    const char *e = strchr(p, '\n'); size_t n = e ? (size_t)(e - p) : strlen(p);
    char *line = strndup(p, n), *cm = strchr(line, '#'), *sv; if (cm) *cm = 0;
    for (char *t = strtok_r(line, " \t\r\v\f", &sv); t; t = strtok_r(NULL, " \t\r\v\f", &sv)) {
      double v = 0; int z = 0, isn = numtok(t, &v, &z); const char *d = t; char *k; long dim = strtol(d, &k, 10); seen++;
      if (isn && seen == 2 && z) { nc = (long)v; if (nc > 0 && nc < 1000) head = 4 + 2 * nc; }
      vput("%s{\"t\":\"%s\",\"s\":", first ? "" : ",", isn ? "n" : "w"); first = 0;
      if (isn) { int cnt = seen <= head; long g = cnt ? (z ? (long)v : 0) : grid(v); vput("\"\",\"g\":%ld,\"z\":%d}", g, cnt ? z : 1); }
      else if (!strcmp(k, "VECT")) vput("\"VECT\",\"g\":%ld,\"z\":1}", k == t ? 3L : dim > 1000 ? 1000L : dim);
      else { vstr(t); vput(",\"g\":0,\"z\":%d}", strchr("+-.0123456789iInN", t[0]) || !strncmp(t, "VECT", 4) ? 2 : 0); }
    }
    if (cm) { vput("%s{\"t\":\"#\",\"s\":\"\",\"g\":0,\"z\":0}", first ? "" : ","); first = 0; }
    free(line);
    if (!e) break;
    p = e + 1;
  }
  vput("]");
}
static char *write_text(nplCurve *L) { FILE *f = fopen("out.vect", "w"); nplc_write(f, L); fclose(f); return slurp("out.vect"); }
static void read_into(int r, const char *text) {      /* err, msg, has, items and out of the event */
  FILE *f = fopen("in.vect", "w"); fputs(text, f); fclose(f); f = fopen("in.vect", "r"); int err = -77; char msg[80]; memset(msg, 'x', 80); msg[79] = 0;
  nplCurve *L = nplc_read(f, &err, msg, sizeof msg); fclose(f); int k = kept(-1); put_in(r, L);
  vput("\"r\":%d,\"kept\":%d,\"err\":%d,\"msg\":%d,\"has\":%d,\"items\":", r, k, err, strlen(msg) < 80 && (err == 0) == (msg[0] == 0), L != NULL); put_items(text);
  if (L) { vput(",\"out\":"); put_curve(L); } vput("}"); vflush();
}
static nplc_vector vecn(int n) { nplc_vector v = nplc_vect_new(n); for (int k = 0; k < n; k++) v.c[k] = num(); return v; }
static void pq(const char *nm, nplc_vector v, double u) { vput(",\"%s\":[", nm); for (int k = 0; k < v.n; k++) vput("%s%ld", k ? "," : "", q(v.c[k], u)); vput("]"); }
static void once(const char *nm, nplc_vector v, double u) { pq(nm, v, u); nplc_vect_free(&v); }
static int same(nplc_vector a, nplc_vector b) { if (a.n != b.n) return 0; for (int i = 0; i < a.n; i++) if (a.c[i] != b.c[i]) return 0; return 1; }

static void run_command(void) {
  int r = ti(1); note();
  if (is("unit")) { static const double T[] = {1, 1 / 3.0, 3.14159265358979e-7, 12345.678901234567, 1 / 8.0, 7e-150, 1e120 / 3}; U = T[r % 7]; return; }
  if (is("new")) {                           /* new r dim nc (nv open cc)* coords colours */
    at = 2; int dim = num(), nc = num(), nv[40], cc[40]; bool op[40]; for (int i = 0; i < nc; i++) { nv[i] = num(); op[i] = num(); cc[i] = num(); }
    nplCurve *L = nplc_new(dim, nc, nv, op, cc); int blank = L->nc == nc;
    for (int i = 0; i < nc; i++) { blank &= L->cp[i].nv == nv[i] && L->cp[i].open == op[i] && L->cp[i].cc == cc[i]; for (int j = -1; j <= nv[i]; j++) { blank &= L->cp[i].vt[j].n == dim; for (int k = 0; k < dim; k++) blank &= L->cp[i].vt[j].c[k] == 0; } }
    put_in(r, L); vput("{\"op\":\"new\",\"r\":%d,\"dim\":%d,\"blank\":%d,\"cp\":[", r, dim, blank); int a2 = at; for (int i = 0; i < nc; i++) a2 += nv[i] * dim;
    for (int i = 0; i < nc; i++) { vput("%s{\"open\":%d,\"vt\":[", i ? "," : "", op[i]);
      for (int j = 0; j < nv[i]; j++) { vput("%s[", j ? "," : ""); for (int k = 0; k < dim; k++) { long x = num(); vput("%s%ld", k ? "," : "", x); L->cp[i].vt[j].c[k] = x * U; } vput("]"); }
      vput("],\"clr\":["); int keep = at; at = a2; for (int j = 0; j < cc[i]; j++) { long x[4]; for (int k = 0; k < 4; k++) x[k] = num(); vput("%s[%ld,%ld,%ld,%ld]", j ? "," : "", x[0], x[1], x[2], x[3]); L->cp[i].clr[j] = (nplc_color){x[0] * U, x[1] * U, x[2] * U, x[3] * U}; } a2 = at; at = keep; vput("]}"); }
    nplc_fix_wrap(L); vput("],\"out\":"); put_curve(L); vput("}"); vflush(); return;
  }
  if (is("copy")) { int s = ti(2); nplCurve *L = nplc_copy(R[s]); int k = kept(-1); put_in(r, L); vput("{\"op\":\"copy\",\"r\":%d,\"s\":%d,\"kept\":%d,\"out\":", r, s, k); put_curve(L); vput("}"); vflush(); return; }
  if (is("comp")) { int s = ti(2), c = ti(3); nplCurve *L = nplc_component(c, R[s]); int k = kept(-1); put_in(r, L); vput("{\"op\":\"comp\",\"r\":%d,\"s\":%d,\"c\":%d,\"kept\":%d,\"out\":", r, s, c, k); put_curve(L); vput("}"); vflush(); return; }
  if (is("rev")) { nplc_reverse(R[r]); vput("{\"op\":\"rev\",\"r\":%d,\"kept\":%d,\"out\":", r, kept(r)); put_curve(R[r]); vput("}"); vflush(); return; }
  if (is("set")) {                           /* set r c j coords */
    int c = ti(2), j = ti(3); at = 4; nplc_strand *s = &R[r]->cp[c]; for (int k = 0; k < s->vt[j].n; k++) s->vt[j].c[k] = num() * U;
    nplc_fix_wrap(R[r]); vput("{\"op\":\"set\",\"r\":%d,\"c\":%d,\"j\":%d,\"kept\":%d,\"v\":[", r, c, j, kept(r)); for (int k = 4; k < at; k++) vput("%s%ld", k > 4 ? "," : "", ti(k)); vput("],\"out\":"); put_curve(R[r]); vput("}"); vflush(); return;
  }
  if (is("wr")) { int s = ti(2); char *t = write_text(R[s]); vput("{\"op\":\"wr\",\"s\":%d,", s); read_into(r, t); free(t); return; }
  if (is("rd")) { char *t = pct(tok[2]); vput("{\"op\":\"rd\","); read_into(r, t); return; }
  if (is("mut")) {                           /* mut r s pos byte: write s, change (0: cut at) the byte at pos, read */
    int s = ti(2); char *t = write_text(R[s]); size_t n = strlen(t), p = (size_t)ti(3) * n / 1000; t[p] = (char)ti(4);
    vput("{\"op\":\"rd\","); read_into(r, t); free(t); return;
  }
  if (is("meas")) {                          /* meas r (c a b)* */
    nplCurve *L = R[r]; int ce[40]; double ln[40]; int e = nplc_edges(L, ce), e2 = nplc_edges(L, NULL), e3 = nplc_num_edges(L); double tot = nplc_arclength(L, ln), t2 = nplc_arclength(L, NULL);
    vput("{\"op\":\"meas\",\"r\":%d,\"kept\":%d,\"dim\":%d,\"edges\":%d,\"edges2\":%d,\"edges3\":%d,\"verts\":%d,\"tot\":%ld,\"tot2\":%ld,\"ce\":[", r, kept(-1), nplc_dim(L), e, e2, e3, nplc_num_verts(L), q(tot / U, 100), q(t2 / U, 100));
    for (int i = 0; i < L->nc; i++) vput("%s%d", i ? "," : "", ce[i]); vput("],\"len\":["); for (int i = 0; i < L->nc; i++) vput("%s%ld", i ? "," : "", q(ln[i] / U, 100)); vput("],\"sub\":[");
    for (at = 2; at < ntok;) { int c = num(), a = num(), b = num(); vput("%s[%d,%d,%d,%ld]", at > 5 ? "," : "", c, a, b, q(nplc_subarc_length(L, c, a, b) / U, 100)); } vput("]}"); vflush(); return;
  }
  if (is("free")) { nplc_free(R[r]); R[r] = NULL; nplc_free(NULL); vput("{\"op\":\"free\",\"r\":%d,\"kept\":%d}", r, kept(r)); vflush(); return; }
  if (is("vec")) {                           /* vec n s t A B */
    at = 1; int n = num(); long s = num(), t = num(); nplc_vector A = vecn(n), B = vecn(n), X = nplc_vect_new(n), A0 = vecn(0), B0; bool ok; double x;
    nplc_vect_free(&A0); A0 = nplc_vect_new(n); B0 = nplc_vect_new(n); for (int i = 0; i < n; i++) { A0.c[i] = A.c[i]; B0.c[i] = B.c[i]; }
    vput("{\"op\":\"vec\",\"s\":%ld,\"t\":%ld", s, t); pq("A", A0, 1); pq("B", B0, 1); pq("zero", X, 1); nplc_vect_copy(X, A); pq("copy", X, 1);
    nplc_vector *b = nplc_vect_buf_new(n, 3); vput(",\"buf\":["); for (int i = 0; i < 3; i++) { vput("%s[", i ? "," : ""); for (int k = 0; k < b[i].n; k++) { vput("%s%ld", k ? "," : "", q(b[i].c[k], 1)); b[i].c[k] = i + 5; } vput("]"); } vput("]"); nplc_vect_buf_free(3, b);
    nplc_vect_free(&X); vput(",\"gone\":%d", X.n == 0 && X.c == NULL);
    once("sum", nplc_vect_sum(A, B), 1); once("diff", nplc_vect_diff(A, B), 1); once("scale", nplc_scale_vect(s, A), 1); once("mul", nplc_component_mult(A, B), 1); once("lin", nplc_vlincomb(s, A, t, B), 1); once("wei", nplc_vweighted(s / 4.0, A, B), 4);
    X = nplc_vect_new(n); nplc_vect_copy(X, A); pq("madd", nplc_vmadd(X, s, B), 1);
    ok = false; X = nplc_component_div(A, B, &ok); vput(",\"divok\":%d", ok); pq("div", ok ? X : A, 1e4);
    vput(",\"dot\":%ld,\"norm\":%ld,\"dist\":%ld,\"sq\":%ld", q(nplc_dot_prod(A, B), 1), q(nplc_norm(A), 100), q(nplc_distance(A, B), 100), q(nplc_sq_dist(A, B), 1));
    X = nplc_vect_new(n); nplc_vect_copy(X, A); X.c[n - 1] += 1e-9; int q1 = nplc_vecteq(A, X); X.c[n - 1] = A.c[n - 1]; X.c[0] -= 1e-9; vput(",\"eq\":[%d,%d,%d,%d]", nplc_vecteq(A, B), nplc_vecteq(A, A), q1, nplc_vecteq(A, X));
    ok = false; X = nplc_normalize_vect(A, &ok); vput(",\"nok\":%d", ok); pq("unit", ok ? X : A, 1e4);
    x = nplc_angle(A, B, &ok); vput(",\"aok\":%d,\"cos\":%ld,\"arange\":%d", ok, q(cos(x), 1e4), !ok || (x >= 0 && x <= 3.14159266));
    once("build", nplc_build_vect(5, (double)(s + t), (double)(s + 2 * t), (double)(s + 3 * t), (double)(s + 4 * t), (double)(s + 5 * t)), 1);
    char w[4000] = "(", y[4000] = ""; for (int i = 0; i < n; i++) { sprintf(w + strlen(w), "%s%ld", i ? "," : "", (long)A0.c[i]); sprintf(y + strlen(y), "%ld ", (long)A0.c[i]); } strcat(w, ")");
    int o1 = !strcmp(nplc_vect_print(A), w); char *c = nplc_vect_clist(A); while (*c && strlen(y) && y[strlen(y) - 1] == ' ') y[strlen(y) - 1] = 0; char z[4000]; strncpy(z, c, 3999); z[3999] = 0; while (*z && z[strlen(z) - 1] == ' ') z[strlen(z) - 1] = 0;
    vput(",\"print\":%d,\"clist\":%d,\"kept\":%d}", o1, !strcmp(z, y), same(A, A0) && same(B, B0)); vflush(); return;
  }
  if (is("rnd")) {                           /* rnd n N seed */
    int n = ti(1), N = ti(2), unit = 1, dim = 1; srand(ti(3)); double m[80] = {0}, m2[80] = {0}, cr[80] = {0};
    for (int i = 0; i < N; i++) { nplc_vector v = nplc_random_vect(n); dim &= v.n == n; double s = 0; for (int k = 0; k < n; k++) { s += v.c[k] * v.c[k]; m[k] += v.c[k]; m2[k] += v.c[k] * v.c[k]; cr[k] += v.c[k] * v.c[(k + 1) % n]; } unit &= fabs(s - 1) < 1e-12; nplc_vect_free(&v); }
    vput("{\"op\":\"rnd\",\"n\":%d,\"unit\":%d,\"dim\":%d,\"tol\":%ld,\"mean\":[", n, unit, dim, q(8 / sqrt(N), 1e4)); for (int k = 0; k < n; k++) vput("%s%ld", k ? "," : "", q(m[k] / N, 1e4)); vput("],\"m2\":["); for (int k = 0; k < n; k++) vput("%s%ld", k ? "," : "", q(m2[k] / N, 1e4));
    vput("],\"cross\":["); for (int k = 0; n > 1 && k < n; k++) vput("%s%ld", k ? "," : "", q(cr[k] / N, 1e4)); vput("]}"); vflush(); return;
  }
  abort();
}
