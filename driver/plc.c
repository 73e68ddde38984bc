/* Conformance driver for curves (plCurve.h): one JSON event per public call.
 *
 * Coordinates are logged on a grid of 1/1024: exactly representable values are logged exactly and
 * the event's "ix" counts the values that are not on the grid (then rounded to the nearest).
 */
#include "vdrv.h"
#include <float.h>
#include <stddef.h>
#include <plCurve.h>

#define NREG 6
static plCurve *R[NREG];
static plc_constraint *dummy;
static int ix;                              /* values off the grid in this event (1: by rounding only) */
#define UNIT 1024.0
static long grid(double x) {
  double s = x * UNIT, q = nearbyint(s);
  if (!(fabs(q) < 2e9)) { ix = 2; return 2000000000; }
  if (s != q) { int k = fabs(s - q) < 1e-6 ? 1 : 2; if (k > ix) ix = k; }
  return (long)q;
}
static void putv(plc_vector v) { vput("[%ld,%ld,%ld]", grid(v.c[0]), grid(v.c[1]), grid(v.c[2])); }
static void putc_(plc_color c) { vput("[%ld,%ld,%ld,%ld]", grid(c.r), grid(c.g), grid(c.b), grid(c.alpha)); }

static void put_curve(plCurve *L) {
  vput("{\"cp\":[");
  for (int i = 0; i < L->nc; i++) {
    plc_strand *c = &L->cp[i];
    vput("%s{\"open\":%d,\"vt\":[", i ? "," : "", c->open ? 1 : 0);
    for (int j = 0; j < c->nv; j++) { vput("%s", j ? "," : ""); putv(c->vt[j]); }
    vput("],\"clr\":[");
    for (int j = 0; j < c->cc; j++) { vput("%s", j ? "," : ""); putc_(c->clr[j]); }
    vput("],\"hid\":["); putv(c->vt[-1]); vput(","); putv(c->vt[c->nv]); vput("]}");
  }
  vput("],\"cst\":[");
  int k = 0;
  for (plc_constraint *q = L->cst; q; q = q->next, k++) {
    vput("%s{\"k\":%d,\"c\":%d,\"v\":%d,\"n\":%d,\"x\":[", k ? "," : "", (int)q->kind, q->cmp, q->vert, q->num_verts);
    putv(q->vect[0]); vput(","); putv(q->vect[1]); vput("]}");
    if (k > 100000) break;
  }
  vput("]}");
}
/* the bits of a curve, to see that a call left it alone */
static unsigned long long mix(unsigned long long h, const void *p, size_t n) {
  const unsigned char *b = p; while (n--) h = (h ^ *b++) * 1099511628211ULL; return h;
}
static unsigned long long bits(plCurve *L) {
  unsigned long long h = 14695981039346656037ULL;
  h = mix(h, &L->nc, sizeof(int)); h = mix(h, &L->cp, sizeof(void *)); h = mix(h, &L->G, sizeof(void *)); h = mix(h, &L->quant, sizeof(void *));
  for (int i = 0; i < L->nc; i++) {
    plc_strand *c = &L->cp[i]; unsigned char o = c->open ? 1 : 0;
    h = mix(h, &o, 1); h = mix(h, &c->nv, sizeof(int)); h = mix(h, &c->cc, sizeof(int)); h = mix(h, &c->vt, sizeof(void *));
    if (c->nv > 1) h = mix(h, c->vt - 1, sizeof(plc_vector) * (c->nv + 2)); else h = mix(h, c->vt, sizeof(plc_vector) * c->nv);
    if (c->cc) h = mix(h, c->clr, sizeof(plc_color) * c->cc);
  }
  for (plc_constraint *q = L->cst; q; q = q->next) h = mix(h, q, offsetof(plc_constraint, next));
  return h;
}
static unsigned long long sum[NREG];
static void before(void) { ix = 0; for (int i = 0; i < NREG; i++) sum[i] = R[i] ? bits(R[i]) : 0; }
static int same(int except) {              /* every other register is bitwise as it was */
  for (int i = 0; i < NREG; i++) if (i != except && R[i] && bits(R[i]) != sum[i]) return 0;
  return 1;
}
static int is(const char *s) { return !strcmp(tok[0], s); }
static plc_vector tv(int i) { return plc_build_vect(td(i), td(i + 1), td(i + 2)); }
static void put_args(int from) {           /* numeric arguments, on the grid */
  vput("\"a\":[");
  for (int i = from; i < ntok; i++) vput("%s%ld", i > from ? "," : "", grid(td(i)));
  vput("]");
}
static void put_ints(int from) {
  vput("\"i\":[");
  for (int i = from; i < ntok; i++) vput("%s%ld", i > from ? "," : "", ti(i));
  vput("]");
}
static void head(const char *op, int r) { vput("{\"op\":\"%s\",\"r\":%d,", op, r); }
static void tail(int r, int except) { vput(",\"same\":%d,\"out\":", same(except)); put_curve(R[r]); vput(",\"ix\":%d}", ix); vflush(); }
static void drop(int r) { if (R[r]) plc_free(R[r]); R[r] = NULL; }

static void episode_reset(void) { for (int i = 0; i < NREG; i++) R[i] = NULL; (void)dummy; }

/* nc, then per component: nv open cc, vertices, colors */
static plCurve *parse_curve(int at) {
  int nc = ti(at++); int nv[64], cc[64]; bool op[64]; int p = at;
  for (int i = 0; i < nc; i++) { nv[i] = ti(p); op[i] = ti(p + 1); cc[i] = ti(p + 2); p += 3 + 3 * nv[i] + 4 * cc[i]; }
  plCurve *L = plc_new(nc, nv, op, cc); p = at;
  for (int i = 0; i < nc; i++) {
    p += 3;
    for (int j = 0; j < nv[i]; j++, p += 3) L->cp[i].vt[j] = tv(p);
    for (int j = 0; j < cc[i]; j++, p += 4) L->cp[i].clr[j] = plc_build_color(td(p), td(p + 1), td(p + 2), td(p + 3));
  }
  plc_fix_wrap(L);
  return L;
}

static int regular(plCurve *L) {           /* no strand turns straight back */
  for (int i = 0; i < L->nc; i++) for (int j = 0; j < L->cp[i].nv; j++) {
    plc_strand *c = &L->cp[i]; if (c->nv < 2 || (c->open && (j == 0 || j == c->nv - 1))) continue;
    plc_vector a = plc_vect_diff(c->vt[j], j ? c->vt[j - 1] : c->vt[c->nv - 1]), b = plc_vect_diff(j < c->nv - 1 ? c->vt[j + 1] : c->vt[0], c->vt[j]);
    if (plc_dot_prod(a, b) < -(1 - 1e-6) * plc_norm(a) * plc_norm(b)) return 0;
  }
  return 1;
}

#include "plcfile.h"
#include "plcgeom.h"

static void run_command(void) {
  int r = ti(1);
  before();
  if (is("new")) {                          /* new r CURVE */
    drop(r); R[r] = parse_curve(2);
    head("new", r); put_args(2); tail(r, r);
  } else if (is("fixed")) {                 /* fixed r cmp vert x y z */
    plc_set_fixed(R[r], ti(2), ti(3), tv(4));
    head("fixed", r); put_args(4); vput(",\"c\":%ld,\"v\":%ld,\"n\":1", ti(2), ti(3)); tail(r, r);
  } else if (is("line")) {                  /* line r cmp vert n tx ty tz px py pz */
    plc_constrain_to_line(R[r], ti(2), ti(3), ti(4), tv(5), tv(8));
    head("line", r); put_args(5); vput(",\"c\":%ld,\"v\":%ld,\"n\":%ld", ti(2), ti(3), ti(4)); tail(r, r);
  } else if (is("plane")) {                 /* plane r cmp vert n nx ny nz d */
    plc_constrain_to_plane(R[r], ti(2), ti(3), ti(4), tv(5), td(8));
    head("plane", r); put_args(5); vput(",\"c\":%ld,\"v\":%ld,\"n\":%ld", ti(2), ti(3), ti(4)); tail(r, r);
  } else if (is("uncst")) {                 /* uncst r cmp vert n */
    plc_unconstrain(R[r], ti(2), ti(3), ti(4));
    head("uncst", r); vput("\"c\":%ld,\"v\":%ld,\"n\":%ld", ti(2), ti(3), ti(4)); tail(r, r);
  } else if (is("rmcst")) {                 /* rmcst r kind x6 */
    plc_vector v[2] = {tv(3), tv(6)};
    int n = plc_remove_constraint(R[r], (plc_cst_kind)ti(2), v);
    head("rmcst", r); put_args(3); vput(",\"k\":%ld,\"ret\":%d", ti(2), n); tail(r, r);
  } else if (is("rmall")) {
    plc_remove_all_constraints(R[r]); head("rmall", r); vput("\"z\":0"); tail(r, r);
  } else if (is("iscst")) {                 /* iscst r: asks for every vertex */
    head("iscst", r); vput("\"q\":["); int first = 1;
    for (int c = 0; c < R[r]->nc; c++) for (int v = 0; v < R[r]->cp[c].nv; v++) {
      plc_constraint *q = NULL; bool b = plc_is_constrained(R[r], c, v, &q), b2 = plc_is_constrained(R[r], c, v, NULL);
      vput("%s{\"c\":%d,\"v\":%d,\"b\":%d,\"b2\":%d,\"k\":%d,\"x\":[", first ? "" : ",", c, v, b, b2, b ? (int)q->kind : 0); first = 0;
      if (b) { putv(q->vect[0]); vput(","); putv(q->vect[1]); }
      vput("]}");
    }
    vput("],\"neg\":%d", plc_is_constrained(R[r], 0, R[r]->cp[0].nv, NULL) || plc_is_constrained(R[r], R[r]->nc, 0, NULL)); tail(r, -1);
  } else if (is("fixcst")) {
    plc_fix_cst(R[r]); double e = plc_check_cst(R[r]);
    head("fixcst", r); vput("\"e\":%d", e < 1e-9 ? 0 : 1); tail(r, r);
  } else if (is("chkcst")) {                /* the sup distance, squared, in units of 1/1024 */
    double e = plc_check_cst(R[r]);
    head("chkcst", r); int sv = ix; vput("\"e2\":%ld", grid(e * e)); ix = sv; tail(r, -1);
  } else if (is("wrap")) {                  /* wrap r: garbage in the hidden vertices, then fix_wrap */
    for (int i = 0; i < R[r]->nc; i++) { plc_strand *c = &R[r]->cp[i]; if (c->nv > 1) { c->vt[-1] = plc_build_vect(7, 7, 7); c->vt[c->nv] = plc_build_vect(9, 9, 9); } }
    plc_fix_wrap(R[r]); head("wrap", r); vput("\"z\":0"); tail(r, r);
  } else if (is("copy")) {                  /* copy r s */
    int s = ti(2); plCurve *L = plc_copy(R[s]); int sm = same(-1); drop(r); R[r] = L;
    head("copy", r); vput("\"s\":%d,\"kept\":%d,\"al\":%d", s, sm, L == R[s] && r != s); tail(r, r);
  } else if (is("setvt")) {                 /* setvt r cmp vert x y z: what a user of the structure does */
    R[r]->cp[ti(2)].vt[ti(3)] = tv(4); plc_fix_wrap(R[r]);
    head("setvt", r); put_args(4); vput(",\"c\":%ld,\"v\":%ld", ti(2), ti(3)); tail(r, r);
  } else if (is("addcp")) {                 /* addcp r at nv open cc verts colors */
    int nv = ti(3), cc = ti(5), p = 6; plc_vector *v = malloc(sizeof(plc_vector) * nv); plc_color *c = cc ? malloc(sizeof(plc_color) * cc) : NULL;
    for (int j = 0; j < nv; j++, p += 3) v[j] = tv(p);
    for (int j = 0; j < cc; j++, p += 4) c[j] = plc_build_color(td(p), td(p + 1), td(p + 2), td(p + 3));
    plc_add_component(R[r], ti(2), nv, ti(4), cc, v, c);
    free(v); free(c);
    head("addcp", r); put_args(6); vput(",\"at\":%ld,\"nv\":%d,\"open\":%ld,\"cc\":%d", ti(2), nv, ti(4), cc); tail(r, r);
  } else if (is("dropcp")) {
    plc_drop_component(R[r], ti(2)); head("dropcp", r); vput("\"c\":%ld", ti(2)); tail(r, r);
  } else if (is("resize")) {                /* resize r cp cc */
    plc_strand *c = &R[r]->cp[ti(2)]; int had = c->cc;
    plc_resize_colorbuf(R[r], ti(2), ti(3));
    if (had > 1) for (int j = had; j < c->cc; j++) c->clr[j] = plc_build_color(0.5, 0.5, 0.5, 1);  /* unspecified entries: the caller sets them */
    head("resize", r); vput("\"c\":%ld,\"cc\":%ld", ti(2), ti(3)); tail(r, r);
  } else if (is("setclr")) {
    plc_set_color(R[r], plc_build_color(td(2), td(3), td(4), td(5))); head("setclr", r); put_args(2); tail(r, r);
  } else if (is("delarc")) {                /* delarc r s cp v1 v2 */
    int s = ti(2); plCurve *L = plc_delete_arc(R[s], ti(3), ti(4), ti(5)); int sm = same(-1); drop(r); R[r] = L;
    head("delarc", r); vput("\"s\":%d,\"kept\":%d,\"c\":%ld,\"v1\":%ld,\"v2\":%ld", s, sm, ti(3), ti(4), ti(5)); tail(r, r);
  } else if (is("double")) {                /* double r s: not defined where the curve turns straight back (the episode ends there) */
    int s = ti(2); if (!regular(R[s])) { fflush(NULL); _exit(0); } plCurve *L = plc_double_verts(R[s]); int sm = same(-1); drop(r); R[r] = L;
    head("double", r); vput("\"s\":%d,\"kept\":%d", s, sm); tail(r, r);
  } else if (is("free")) {
    plc_free(R[r]); R[r] = NULL; plc_free(NULL);
    head("free", r); vput("\"same\":%d,\"ix\":0}", same(r)); vflush();
  } else if (plcgeom(r)) {
  } else if (plcfile(r)) {
  } else { fprintf(stderr, "unknown command %s\n", tok[0]); abort(); }
}
