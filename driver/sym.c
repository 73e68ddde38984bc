/* Conformance driver for symmetry groups and nearest-neighbour queries of curves. */
#include "vdrv.h"
#include <plCurve.h>
#include <matrix.h>

static plCurve *R[3]; static plc_symmetry_group *dummy;
static int is(const char *s) { return !strcmp(tok[0], s); }
static long q(double x, double u) { double y = nearbyint(x * u); return fabs(y) < 2e9 ? (long)y : 2000000000L; }
static int flat(plCurve *L, int cp, int vt) {       /* 1, 2, ... over all components; 0 when there is no such vertex */
  if (cp < 0 || cp >= L->nc || vt < 0 || vt >= L->cp[cp].nv) return 0;
  int n = 1; for (int i = 0; i < cp; i++) n += L->cp[i].nv; return n + vt;
}
static void put_vecs(const plc_vector *v, int n) { for (int i = 0; i < n; i++) vput("%s[%ld,%ld,%ld]", i ? "," : "", q(v[i].c[0], 256), q(v[i].c[1], 256), q(v[i].c[2], 256)); }
static void put_points(plCurve *L) {
  vput("["); int first = 1;
  for (int c = 0; c < L->nc; c++) { if (!first && L->cp[c].nv) vput(","); put_vecs(L->cp[c].vt, L->cp[c].nv); if (L->cp[c].nv) first = 0; }
  vput("]");
}
static void put_m(plc_matrix *A) { vput("["); for (int i = 0; i < 3; i++) vput("%s[%ld,%ld,%ld]", i ? "," : "", q((*A)[i][0], 65536), q((*A)[i][1], 65536), q((*A)[i][2], 65536)); vput("]"); }
static void put_t(plCurve *L, plc_symmetry *S) {
  vput("["); int n = 0;
  for (int c = 0; c < L->nc; c++) for (int v = 0; v < L->cp[c].nv; v++) vput("%s%d", n++ ? "," : "", flat(L, S->target[c][v].cp, S->target[c][v].vt));
  vput("]");
}
static int hidden_ok(plCurve *L) {
  for (int c = 0; c < L->nc; c++) {
    plc_strand *s = &L->cp[c]; int n = s->nv; if (n < 2) continue;
    plc_vector a = s->open ? s->vt[1] : s->vt[n - 1], b = s->open ? s->vt[n - 2] : s->vt[0];
    for (int k = 0; k < 3; k++) if (s->vt[-1].c[k] != a.c[k] || s->vt[n].c[k] != b.c[k]) return 0;
  }
  return 1;
}
static void put_group(plCurve *L) {
  plc_symmetry_group *G = L->G;
  vput("{\"m\":["); for (int i = 0; G && i < G->n; i++) { if (i) vput(","); put_m(G->sym[i]->transform); }
  vput("],\"t\":["); for (int i = 0; G && i < G->n; i++) { if (i) vput(","); put_t(L, G->sym[i]); }
  vput("],\"inv\":["); for (int i = 0; G && i < G->n; i++) vput("%s%d", i ? "," : "", G->inverse[i] + 1);
  vput("]}");
}
static void put_state(int r) { vput("\"r\":%d,\"hid\":%d,\"p\":", r, hidden_ok(R[r])); put_points(R[r]); vput(",\"g\":"); put_group(R[r]); }
static int read_curve(int r, int p) {        /* nc {nv open x y z ...} */
  int nc = ti(p++), nv[64], cc[64] = {0}, s = p; bool op[64];
  for (int i = 0; i < nc; i++) { nv[i] = ti(p); op[i] = ti(p + 1); p += 2 + 3 * nv[i]; }
  R[r] = plc_new(nc, nv, op, cc); p = s;
  for (int i = 0; i < nc; i++) { p += 2; for (int j = 0; j < nv[i]; j++, p += 3) R[r]->cp[i].vt[j] = plc_build_vect(td(p), td(p + 1), td(p + 2)); }
  plc_fix_wrap(R[r]); return p;
}

/* nearest neighbours */
static plc_vector *B[8]; static int nB[8]; static plCurve *C[8];
static struct plc_nearest_neighbor_pc_data *H[4]; static struct plc_nearest_vertex_pc_data *K[4];

/* a query: x y z, or @i dx dy dz, next to the i-th point of a buffer */
static plc_vector query(int at, plc_vector *b, int n) {
  if (tok[at][0] != '@') return plc_build_vect(td(at), td(at + 1), td(at + 2));
  return plc_vect_sum(b[strtol(tok[at] + 1, NULL, 10) % n], plc_build_vect(td(at + 1), td(at + 2), td(at + 3)));
}
static void episode_reset(void) { memset(R, 0, sizeof R); memset(B, 0, sizeof B); memset(C, 0, sizeof C); memset(H, 0, sizeof H); memset(K, 0, sizeof K); (void)dummy; }

static void run_command(void) {
  int r = ti(1);
  if (is("new")) { read_curve(r, 2); vput("{\"op\":\"new\","); put_state(r); vput("}"); vflush(); }
  else if (is("move")) {                    /* move r cp vt dx dy dz */
    plc_vector *v = &R[r]->cp[ti(2)].vt[ti(3)]; for (int k = 0; k < 3; k++) v->c[k] += td(4 + k);
    plc_fix_wrap(R[r]); vput("{\"op\":\"move\","); put_state(r); vput("}"); vflush();
  } else if (is("grp")) {                   /* grp r kind a1 a2 a3 n */
    plc_vector a = plc_build_vect(ti(3), ti(4), ti(5)); plCurve *L = R[r];
    plc_symmetry_group_free(&L->G);
    L->G = !strcmp(tok[2], "rot") ? plc_rotation_group(L, a, ti(6)) : !strcmp(tok[2], "ref") ? plc_reflection_group(L, a) : plc_coordplanes_reflection_group(L);
    vput("{\"op\":\"grp\",\"kind\":\"%s\",\"a\":[%ld,%ld,%ld],\"n\":%ld,", tok[2], ti(3), ti(4), ti(5), ti(6)); put_state(r); vput("}"); vflush();
  } else if (is("sym")) { plc_symmetrize(R[r]); vput("{\"op\":\"sym\","); put_state(r); vput("}"); vflush(); }
  else if (is("var")) {                     /* var r seed : a variation given by small numbers */
    plCurve *L = R[r]; int n = plc_num_verts(L); plc_vector *b = malloc(sizeof(plc_vector) * n); unsigned s = ti(2);
    for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) { s = s * 1103515245u + 12345u; b[i].c[k] = ((int)((s >> 16) % 2049) - 1024) / 256.0; }
    vput("{\"op\":\"var\",\"b\":["); put_vecs(b, n); double e0 = plc_symmetry_group_variation_check(L, b);
    plc_symmetrize_variation(L, b); double e1 = plc_symmetry_group_variation_check(L, b);
    vput("],\"a\":["); put_vecs(b, n); vput("],\"e\":[%ld,%ld],", q(e0, 256), q(e1, 256)); put_state(r); vput("}"); vflush(); free(b);
  } else if (is("chk")) {
    plCurve *L = R[r]; vput("{\"op\":\"chk\",\"all\":%ld,\"each\":[", q(plc_symmetry_group_check(L), 256));
    for (int i = 0; L->G && i < L->G->n; i++) vput("%s%ld", i ? "," : "", q(plc_symmetry_check(L, L->G->sym[i]), 256));
    vput("],"); put_state(r); vput("}"); vflush();
  } else if (is("comp")) {                  /* comp r i j (from 0, taken modulo the size) */
    plCurve *L = R[r]; if (!L->G) return; int i = ti(2) % L->G->n, j = ti(3) % L->G->n;
    plc_symmetry *S = plc_compose_symmetries(L->G->sym[i], L->G->sym[j]), *T = plc_symmetry_copy(S); plc_symmetry_free(&S);
    vput("{\"op\":\"comp\",\"i\":%d,\"j\":%d,\"m\":", i + 1, j + 1); put_m(T->transform); vput(",\"t\":"); put_t(L, T); vput(","); put_state(r); vput("}"); vflush(); plc_symmetry_free(&T);
  } else if (is("pair")) {                  /* pair r p s p s : symmetries given by two signed permutations, and their composition, first i then j */
    plCurve *L = R[r]; plc_symmetry *S[3] = {0};
    for (int i = 0; i < 2; i++) { plc_matrix M; memset(M, 0, sizeof M); for (int k = 0; k < 3; k++) M[k][tok[2 + 2 * i][k] - '0'] = tok[3 + 2 * i][k] == '-' ? -1 : 1; S[i] = plc_build_symmetry(&M, L); }
    if (S[0] && S[1]) S[2] = plc_compose_symmetries(S[0], S[1]);
    vput("{\"op\":\"pair\",\"s\":["); for (int i = 0; i < 3; i++) { vput("%s[", i ? "," : ""); if (S[i]) { vput("{\"m\":"); put_m(S[i]->transform); vput(",\"t\":"); put_t(L, S[i]); vput(",\"e\":%ld}", q(plc_symmetry_check(L, S[i]), 256)); } vput("]"); }
    vput("],\"a\":["); for (int i = 0; i < 2; i++) { vput("%s[", i ? "," : ""); for (int k = 0; k < 3; k++) { vput("%s[", k ? "," : ""); for (int j = 0; j < 3; j++) vput("%s%d", j ? "," : "", tok[2 + 2 * i][k] - '0' != j ? 0 : tok[3 + 2 * i][k] == '-' ? -65536 : 65536); vput("]"); } vput("]"); }
    vput("],"); put_state(r); vput("}"); vflush(); for (int i = 0; i < 3; i++) if (S[i]) plc_symmetry_free(&S[i]);
  } else if (is("copy")) {                  /* copy r s : r becomes a copy of s */
    int s = ti(2); if (R[r]) plc_free(R[r]); R[r] = plc_copy(R[s]); vput("{\"op\":\"copy\",\"s\":%d,", s); put_state(r); vput("}"); vflush();
  } else if (is("free")) { plc_free(R[r]); R[r] = NULL; vput("{\"op\":\"free\",\"r\":%d}", r); vflush(); }
  else if (is("rot")) {                     /* rot r a1 a2 a3 k : by 3k degrees */
    plc_vector a = plc_build_vect(ti(2), ti(3), ti(4)); bool ok; a = plc_normalize_vect(a, &ok); plc_rotate(R[r], a, ti(5) * acos(-1) / 60);
    vput("{\"op\":\"rot\",\"a\":[%ld,%ld,%ld],\"k\":%ld,", ti(2), ti(3), ti(4), ti(5)); put_state(r); vput("}"); vflush();
  } else if (is("turn")) {                  /* turn r a1 a2 a3 : this axis becomes vertical */
    plc_vector a = plc_build_vect(ti(2), ti(3), ti(4)); bool ok; a = plc_normalize_vect(a, &ok); plc_random_rotate(R[r], a);
    vput("{\"op\":\"turn\",\"a\":[%ld,%ld,%ld],", ti(2), ti(3), ti(4)); put_state(r); vput("}"); vflush();
  } else if (is("scale")) { plc_scale(R[r], ti(2) / 256.0); vput("{\"op\":\"scale\",\"k\":%ld,", ti(2)); put_state(r); vput("}"); vflush(); }
  else if (is("trans")) { plc_translate(R[r], plc_build_vect(ti(2) / 256.0, ti(3) / 256.0, ti(4) / 256.0)); vput("{\"op\":\"trans\",\"a\":[%ld,%ld,%ld],", ti(2), ti(3), ti(4)); put_state(r); vput("}"); vflush(); }
  else if (is("add")) {                     /* add r at nv */
    int n = ti(3); plc_vector v[64]; for (int i = 0; i < n; i++) v[i] = plc_build_vect(i, n - i, i * i); plc_add_component(R[r], ti(2) % (R[r]->nc + 1), n, true, 0, v, NULL);
    vput("{\"op\":\"edit\","); put_state(r); vput("}"); vflush();
  } else if (is("drop")) { if (R[r]->nc < 2) return; plc_drop_component(R[r], ti(2) % R[r]->nc); vput("{\"op\":\"edit\","); put_state(r); vput("}"); vflush(); }
  else if (is("whit")) {                    /* whit r mirror first : reverse and permute */
    int n = R[r]->nc, eps[64], perm[128]; for (int i = 0; i < n; i++) { eps[i] = (ti(3) >> i) & 1 ? -1 : 1; perm[i] = i; perm[n + i] = 0; }
    plc_whitten(R[r], ti(2), eps, perm); vput("{\"op\":\"edit\","); put_state(r); vput("}"); vflush();
  }
  /* ---- nearest neighbours ---- */
  else if (is("buf")) {                     /* buf b n seed shape */
    int n = nB[r] = ti(2); unsigned s = ti(3); free(B[r]); B[r] = malloc(sizeof(plc_vector) * n);
    double x[3] = {0, 0, 0};
    for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) {
      s = s * 1103515245u + 12345u; int z = (s >> 16) & 0x7fff;
      if (ti(4) == 0) B[r][i].c[k] = z % 801 - 400;                       /* spread */
      else if (ti(4) == 1) { x[k] += z % 5 - 2; if (fabs(x[k]) > 900) x[k] = 0; B[r][i].c[k] = x[k]; }   /* a walk */
      else if (ti(4) == 2) B[r][i].c[k] = k == (int)ti(3) % 3 ? z % 1800 - 900 : z % 3;                /* along an axis */
      else B[r][i].c[k] = z % 4;                                           /* many equal points */
    }
    vput("{\"op\":\"buf\",\"b\":%d,\"p\":[", r); for (int i = 0; i < n; i++) vput("%s[%d,%d,%d]", i ? "," : "", (int)B[r][i].c[0], (int)B[r][i].c[1], (int)B[r][i].c[2]); vput("]}"); vflush();
  } else if (is("nn")) {                    /* nn b handle(-1: none) x y z */
    int h = ti(2), err = 0; plc_vector x = query(3, B[r], nB[r]);
    int k = plc_nearest_neighbor(x, nB[r], B[r], h < 0 ? NULL : &H[h], &err);
    vput("{\"op\":\"nn\",\"b\":%d,\"h\":%d,\"x\":[%ld,%ld,%ld],\"k\":%d,\"stale\":%d}", r, h, q(x.c[0], 1), q(x.c[1], 1), q(x.c[2], 1), k, err == PLC_E_STALE_PCDATA); vflush();
  } else if (is("nnfree")) { plc_nearest_neighbor_pc_data_free(&H[r]); vput("{\"op\":\"nnfree\",\"h\":%d,\"null\":%d}", r, H[r] == NULL); vflush(); }
  else if (is("crv")) {                     /* crv c b b b ... : a curve whose components are these buffers */
    int nc = ntok - 2, nv[8], cc[8] = {0}; bool op[8]; for (int i = 0; i < nc; i++) { nv[i] = nB[ti(2 + i)]; op[i] = true; }
    C[r] = plc_new(nc, nv, op, cc); for (int i = 0; i < nc; i++) memcpy(C[r]->cp[i].vt, B[ti(2 + i)], sizeof(plc_vector) * nv[i]);
    plc_fix_wrap(C[r]); vput("{\"op\":\"crv\",\"c\":%d,\"bs\":[", r); for (int i = 0; i < nc; i++) vput("%s%ld", i ? "," : "", ti(2 + i)); vput("]}"); vflush();
  } else if (is("nv")) {                    /* nv c handle x y z */
    int h = ti(2), err = 0, cp = -7, vt = -7; int pc = (tok[3][0] == '@' ? strtol(tok[3] + 1, NULL, 10) : 0) % C[r]->nc; plc_vector x = query(3, C[r]->cp[pc].vt, C[r]->cp[pc].nv);
    plc_vector y = plc_nearest_vertex(x, C[r], &cp, &vt, h < 0 ? NULL : &K[h], &err);
    vput("{\"op\":\"nv\",\"c\":%d,\"h\":%d,\"x\":[%ld,%ld,%ld],\"cp\":%d,\"vt\":%d,\"y\":[%ld,%ld,%ld],\"stale\":%d}", r, h, q(x.c[0], 1), q(x.c[1], 1), q(x.c[2], 1), cp, vt, q(y.c[0], 1), q(y.c[1], 1), q(y.c[2], 1), err == PLC_E_STALE_PCDATA); vflush();
  } else if (is("nvfree")) { plc_nearest_vertex_pc_data_free(&K[r]); vput("{\"op\":\"nvfree\",\"h\":%d,\"null\":%d}", r, K[r] == NULL); vflush(); }
  else { fprintf(stderr, "unknown command %s\n", tok[0]); abort(); }
}
