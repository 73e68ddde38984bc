/* Conformance driver for the diagram (PD code) part of the library: see vdrv.h. */
#include <plCurve.h>
#include <plcTopology.h>
#include "pd_pack.h"
#include "pd_splitdiagram.h"
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_isomorphisms.h"
#include "pd_storage.h"
#include "pd_invariants.h"
#include "vdrv.h"

#define NREG 64
static pd_code_t *R[NREG];

static long lidx(pd_idx_t i) { return i == PD_UNSET_IDX ? -1 : (long)i; }

static void put_pd(pd_code_t *pd) {
  if (pd == NULL) { vput("{\"n\":-1}"); return; }
  vput("{\"n\":%u,\"x\":[", pd->ncross);
  for (pd_idx_t i = 0; i < pd->ncross; i++)
    vput("%s[%ld,%ld,%ld,%ld,%d]", i ? "," : "", lidx(pd->cross[i].edge[0]), lidx(pd->cross[i].edge[1]),
         lidx(pd->cross[i].edge[2]), lidx(pd->cross[i].edge[3]), (int)pd->cross[i].sign);
  vput("],\"e\":[");
  for (pd_idx_t i = 0; i < pd->nedges; i++)
    vput("%s[%ld,%u,%ld,%u]", i ? "," : "", lidx(pd->edge[i].head), pd->edge[i].headpos,
         lidx(pd->edge[i].tail), pd->edge[i].tailpos);
  vput("],\"c\":[");
  for (pd_idx_t i = 0; i < pd->ncomps; i++) {
    vput("%s{\"t\":%d,\"e\":[", i ? "," : "", (int)pd->comp[i].tag);
    for (pd_idx_t j = 0; pd->comp[i].edge && j < pd->comp[i].nedges; j++) vput("%s%ld", j ? "," : "", lidx(pd->comp[i].edge[j]));
    vput("]}");
  }
  vput("],\"f\":[");
  for (pd_idx_t i = 0; i < pd->nfaces; i++) {
    vput("%s[", i ? "," : "");
    for (pd_idx_t j = 0; pd->face[i].edge && j < pd->face[i].nedges; j++)
      vput("%s[%ld,%d]", j ? "," : "", lidx(pd->face[i].edge[j]), (int)pd->face[i].orient[j]);
    vput("]");
  }
  char h[PD_HASHSIZE + 1]; memcpy(h, pd->hash, PD_HASHSIZE); h[PD_HASHSIZE] = 0;
  vput("],\"h\":"); vstr(h);
  vput(",\"u\":%ld}", pd->uid == PD_UNSET_UID ? -1L : (long)pd->uid);
}

/* canonical text of a diagram object, for "argument not modified" checks */
static char *snap(pd_code_t *pd) {
  char *sb = vbuf; size_t sl = vlen, sc = vcap;
  vbuf = NULL; vlen = vcap = 0;
  put_pd(pd);
  char *res = vbuf;
  vbuf = sb; vlen = sl; vcap = sc;
  return res;
}
#define MAXSNAP 16
static pd_code_t *snap_pd[MAXSNAP]; static char *snap_txt[MAXSNAP]; static int nsnap;
static void watch(pd_code_t *pd) { snap_pd[nsnap] = pd; snap_txt[nsnap++] = snap(pd); }
static int unchanged(void) {
  int ok = 1;
  for (int i = 0; i < nsnap; i++) { char *t = snap(snap_pd[i]); if (strcmp(t, snap_txt[i])) ok = 0; free(t); free(snap_txt[i]); }
  nsnap = 0;
  return ok;
}

static void setreg(int r, pd_code_t *pd) { if (R[r] && R[r] != pd) pd_code_free(&R[r]); R[r] = pd; }

/* {"op":..,"r":dst,"s":[src],"a":[args],"same":b,"out":[..]} */
static void ev_begin(const char *op) { vreset(); vput("{\"op\":\"%s\"", op); }
static void ev_ints(const char *k, int n, const long *v) {
  vput(",\"%s\":[", k); for (int i = 0; i < n; i++) vput("%s%ld", i ? "," : "", v[i]); vput("]");
}
static void ev_srcs(int r, int ns, const long *s) { vput(",\"r\":%d", r); ev_ints("s", ns, s); }
static void ev_same(void) { vput(",\"same\":%d", unchanged()); }
static void ev_out(int n, pd_code_t **o) {
  vput(",\"out\":["); for (int i = 0; i < n; i++) { if (i) vput(","); put_pd(o[i]); } vput("]");
}
static void ev_end(void) { vput("}"); vflush(); }

/* build from darts: n, mate[4n], out[4n], sign[n] starting at token t */
static pd_code_t *build_from(int t) {
  int n = ti(t++);
  if (n == 0) return pd_build_unknot(0);
  int *mate = calloc(4 * n, sizeof(int)), *out = calloc(4 * n, sizeof(int)), *enu = calloc(4 * n, sizeof(int));
  for (int i = 0; i < 4 * n; i++) mate[i] = ti(t++);
  for (int i = 0; i < 4 * n; i++) out[i] = ti(t++);
  pd_code_t *pd = pd_code_new(n);
  int k = 0;
  for (int i = 0; i < 4 * n; i++) if (out[i]) {
    enu[i] = enu[mate[i]] = k;
    pd->edge[k].tail = i / 4; pd->edge[k].tailpos = i % 4;
    pd->edge[k].head = mate[i] / 4; pd->edge[k].headpos = mate[i] % 4;
    k++;
  }
  pd->ncross = n; pd->nedges = k;
  for (int i = 0; i < 4 * n; i++) pd->cross[i / 4].edge[i % 4] = enu[i];
  for (int i = 0; i < n; i++) pd->cross[i].sign = ti(t++);
  pd_regenerate(pd);
  free(mate); free(out); free(enu);
  return pd;
}

static int is(const char *s) { return !strcmp(tok[0], s); }

/* the order in which sweeps enumerate (face, position) for an edge side */

static void one_out(const char *op, int r, int ns, long *s, int na, long *a, pd_code_t *o, bool keep) {
  ev_begin(op); ev_srcs(keep ? r : -1, ns, s); ev_ints("a", na, a); ev_same(); ev_out(1, &o); ev_end();
  if (keep) setreg(r, o); else pd_code_free(&o);
}

static void do_r1del(int r, int s, pd_idx_t c, bool keep) {
  watch(R[s]); pd_code_t *o = pd_R1_loopdeletion(R[s], c);
  long S[1] = {s}, A[1] = {c}; one_out("r1del", r, 1, S, 1, A, o, keep);
}
static void do_r1add(int r, int s, pd_idx_t f, pd_idx_t j, bool keep) {
  watch(R[s]); pd_code_t *o = pd_R1_loop_addition(R[s], f, j);
  long S[1] = {s}, A[2] = {f, j}; one_out("r1add", r, 1, S, 2, A, o, keep);
}
static void do_r2add(int r, int s, pd_idx_t f, pd_idx_t i, pd_idx_t j, bool keep) {
  watch(R[s]); pd_code_t *o = pd_R2_bigon_addition(R[s], f, i, j, PD_POS_ORIENTATION);
  long S[1] = {s}, A[3] = {f, i, j}; one_out("r2add", r, 1, S, 3, A, o, keep);
}
static void do_r3(int r, int s, pd_idx_t f, bool keep) {
  watch(R[s]); pd_code_t *o = pd_R3_triangle_flip(R[s], f);
  long S[1] = {s}, A[1] = {f}; one_out("r3", r, 1, S, 1, A, o, keep);
}
static void do_r2del(int r, int s, pd_idx_t c0, pd_idx_t c1, bool keep) {
  watch(R[s]);
  pd_idx_t cr[2] = {c0, c1}, nout = 0; pd_code_t **o = NULL;
  pd_R2_bigon_elimination(R[s], cr, &nout, &o);
  long S[1] = {s}, A[2] = {c0, c1};
  ev_begin("r2del"); ev_srcs(keep ? r : -1, 1, S); ev_ints("a", 2, A); ev_same(); ev_out(nout, o); ev_end();
  for (pd_idx_t i = keep ? 1 : 0; i < nout; i++) pd_code_free(&o[i]);
  if (keep) setreg(r, o[0]);
  free(o);
}
/* applicability, read off the current object: the specification re-checks every precondition */
static bool loop_at(pd_code_t *pd, pd_idx_t c) {
  for (int i = 0; i < 4; i++) if (pd->cross[c].edge[i] == pd->cross[c].edge[(i + 1) % 4]) return true;
  return false;
}
static int corner_cross(pd_code_t *pd, pd_idx_t f, pd_idx_t j) {
  pd_edge_t *e = &pd->edge[pd->face[f].edge[j]];
  return pd->face[f].orient[j] == PD_POS_ORIENTATION ? (int)e->head : (int)e->tail;
}
static bool bigon_face(pd_code_t *pd, pd_idx_t f, pd_idx_t *c0, pd_idx_t *c1) {
  if (pd->face[f].nedges != 2) return false;
  *c0 = corner_cross(pd, f, 0); *c1 = corner_cross(pd, f, 1);
  if (*c0 == *c1) return false;
  bool u0 = pd->cross[*c0].sign == PD_UNSET_ORIENTATION, u1 = pd->cross[*c1].sign == PD_UNSET_ORIENTATION;
  if (u0 != u1) return false;
  if (u0) return true;
  /* the edge face[f].edge[0] joins the two crossings; is it over at both ends or under at both? */
  pd_idx_t k = pd->face[f].edge[0], i0, o0, i1, o1;
  pd_edge_t *e = &pd->edge[k];
  pd_overstrand_pos(pd, e->tail, &i0, &o0); pd_overstrand_pos(pd, e->head, &i1, &o1);
  bool over_t = o0 == e->tailpos, over_h = i1 == e->headpos;
  return over_t == over_h;
}
static bool triangle_face(pd_code_t *pd, pd_idx_t f) {
  if (pd->face[f].nedges != 3) return false;
  int a = corner_cross(pd, f, 0), b = corner_cross(pd, f, 1), c = corner_cross(pd, f, 2);
  return a != b && b != c && a != c;
}

/* pd_write's own layout, with optional parts left out: h hash line, t tags, g signs; w = wide spacing;
   p = crossing records in reverse order and rotated */
static void my_write(FILE *f, pd_code_t *pd, const char *drop) {
  bool w = strchr(drop, 'w') != NULL, p = strchr(drop, 'p') != NULL; const char *sp = w ? "   \t " : " ", *nl = w ? "\n\n " : "\n";
  pd_idx_t n = pd->ncross;
  if (strchr(drop, 'h')) fprintf(f, "pd\n"); else { char h[PD_HASHSIZE + 1]; memcpy(h, pd->hash, PD_HASHSIZE); h[PD_HASHSIZE] = 0; fprintf(f, "pd %s %lu\n", h, (unsigned long)pd->uid); }
  fprintf(f, "nv%s%u%s", sp, n, nl);
  for (pd_idx_t k = 0; k < n; k++) {
    pd_idx_t i = p ? n - 1 - k : k;
    for (int j = 0; j < 4; j++) fprintf(f, "%u%s", pd->cross[i].edge[(j + (p ? 1 : 0)) % 4], sp);
    if (!strchr(drop, 'g') && pd->cross[i].sign != PD_UNSET_ORIENTATION) fprintf(f, "%c", pd->cross[i].sign == PD_POS_ORIENTATION ? '+' : '-');
    fprintf(f, "\n");
  }
  fprintf(f, "ne%s%u%s", sp, pd->nedges, nl);
  for (pd_idx_t i = 0; i < pd->nedges; i++) {
    pd_edge_t *e = &pd->edge[i];
    if (p) fprintf(f, "%u,%u -> %u,%u%s", n - 1 - e->tail, (e->tailpos + 3) % 4, n - 1 - e->head, (e->headpos + 3) % 4, nl);
    else fprintf(f, "%u,%u -> %u,%u%s", e->tail, e->tailpos, e->head, e->headpos, nl);
  }
  fprintf(f, "nc%s%u%s", sp, pd->ncomps, nl);
  for (pd_idx_t i = 0; i < pd->ncomps; i++) {
    fprintf(f, "%u : ", pd->comp[i].nedges);
    for (pd_idx_t j = 0; j < pd->comp[i].nedges; j++) fprintf(f, "%u%s", pd->comp[i].edge[j], sp);
    if (!strchr(drop, 't')) fprintf(f, "tag %c", pd->comp[i].tag);
    fprintf(f, "%s", nl);
  }
  fprintf(f, "nf%s%u%s", sp, pd->nfaces, nl);
  for (pd_idx_t i = 0; i < pd->nfaces; i++) {
    fprintf(f, "%u : ", pd->face[i].nedges);
    for (pd_idx_t j = 0; j < pd->face[i].nedges; j++) fprintf(f, "%c %u%s", pd->face[i].orient[j] == PD_POS_ORIENTATION ? '+' : '-', pd->face[i].edge[j], sp);
    fprintf(f, "%s", nl);
  }
}

static void put_perm(pd_idx_t n, const pd_idx_t *p) { vput("["); for (pd_idx_t i = 0; i < n; i++) vput("%s%u", i ? "," : "", p[i]); vput("]"); }
static void put_iso(pd_iso_t *t) {
  pd_idx_t n = t->edgemap->perm->n;
  vput("{\"c\":"); put_perm(t->compperm->n, t->compperm->map);
  vput(",\"e\":["); for (pd_idx_t i = 0; i < n; i++) vput("%s[%u,%d]", i ? "," : "", t->edgemap->perm->map[i], (int)t->edgemap->orient[i]); vput("]");
  if (t->crossmap) { vput(",\"x\":"); put_perm(t->crossmap->perm->n, t->crossmap->perm->map); vput(",\"xo\":%d", (int)t->crossmap->orient); }
  else vput(",\"x\":[],\"xo\":%d", (int)t->facemap->orient);
  vput(",\"f\":"); put_perm(t->facemap->perm->n, t->facemap->perm->map); vput(",\"fo\":%d}", (int)t->facemap->orient);
}
static void iso_command(void) {
  long S[2], V[3];
  int a = ti(1), b = is("autos") ? a : ti(2); S[0] = a; S[1] = b; watch(R[a]); watch(R[b]);
  if (!strcmp(tok[0], "iso")) {          /* the three verdicts */
    V[0] = pd_isomorphic(R[a], R[b]); V[1] = pd_map_isomorphic(R[a], R[b]); V[2] = pd_diagram_isotopic(R[a], R[b]);
    ev_begin("iso"); ev_srcs(-1, 2, S); ev_same(); ev_ints("v", 3, V); ev_end();
  } else if (!strcmp(tok[0], "isostr")) { /* isostr a b seed: the first verdict from bare letters, one per edge end, any names, any order */
    char *t[2]; unsigned z = ti(3) * 2654435761u + 1; if (R[a]->nedges > 60 || R[b]->nedges > 60) return;   /* one character per edge */
    for (int q = 0; q < 2; q++) {
      pd_code_t *pd = R[S[q]]; int n = pd->ncross, e = pd->nedges, *nm = calloc(e + 1, sizeof(int)), *at = calloc(n + 1, sizeof(int));
      for (int i = 0; i < e; i++) nm[i] = i;
      for (int i = 0; i < n; i++) at[i] = i;
      if (ti(3)) { for (int i = e - 1; i > 0; i--) { z = z * 1664525u + 1013904223u; int j = (z >> 9) % (i + 1), h = nm[i]; nm[i] = nm[j]; nm[j] = h; }
                   for (int i = n - 1; i > 0; i--) { z = z * 1664525u + 1013904223u; int j = (z >> 9) % (i + 1), h = at[i]; at[i] = at[j]; at[j] = h; } }
      t[q] = calloc(4 * n + 1, 1);
      for (int i = 0; i < n; i++) { z = z * 1664525u + 1013904223u; int o = ti(3) ? (z >> 9) % 4 : 0; for (int j = 0; j < 4; j++) t[q][4 * i + j] = 'A' + nm[pd->cross[at[i]].edge[(j + o) % 4]]; }
      free(nm); free(at);
    }
    V[0] = pd_isomorphic_strings(t[0], R[a]->ncross, t[1], R[b]->ncross); free(t[0]); free(t[1]);
    ev_begin("isostr"); ev_srcs(-1, 2, S); ev_same(); ev_ints("v", 1, V); ev_end();
  } else if (!strcmp(tok[0], "autos")) { /* autos a kind cap: the group of all maps from a diagram to itself */
    unsigned int n = 0; int kind = ti(2), cap = ti(3);
    pd_iso_t **t = kind == 0 ? pd_build_isos(R[a], R[a], &n) : kind == 1 ? pd_build_map_isomorphisms(R[a], R[a], &n) : pd_build_diagram_isotopies(R[a], R[a], &n);
    int m = (int)n < cap ? (int)n : cap;
    ev_begin("autos"); S[1] = a; ev_srcs(-1, 1, S); ev_same(); vput(",\"k\":%d,\"isos\":[", kind);
    for (unsigned int i = 0; i < n; i++) { if (i) vput(","); put_iso(t[i]); }
    vput("],\"e\":["); for (unsigned int i = 0; i < n; i++) vput("%s%d", i ? "," : "", (int)pd_iso_is_e(t[i]));
    vput("],\"per\":["); for (unsigned int i = 0; i < n; i++) vput("%s%u", i ? "," : "", pd_iso_period(t[i]));
    vput("],\"ok\":["); for (unsigned int i = 0; i < n; i++) vput("%s%d", i ? "," : "", (int)(pd_iso_ok(t[i]) && pd_iso_consistent(R[a], R[a], t[i])));
    vput("],\"uni\":%d,\"prod\":[", (int)pd_isos_unique(n, t));
    for (int i = 0; i < m; i++) {
      vput("%s[", i ? "," : "");
      for (int j = 0; j < m; j++) {
        pd_iso_t *p = pd_compose_isos(t[i], t[j]), *c = pd_copy_iso(t[i]); int x = pd_iso_cmp(&t[i], &t[j]), y = pd_iso_cmp(&c, &t[i]);
        vput("%s{\"cmp\":%d,\"cc\":%d,\"p\":", j ? "," : "", x < 0 ? -1 : x > 0, y); put_iso(p);
        vput(",\"c\":"); put_iso(c); pd_stareq_iso(c, t[j]); vput(",\"se\":"); put_iso(c);
        vput(",\"i\":%d,\"ci\":%d}", (int)pd_iso_is_e(p), pd_iso_cmp(&c, &p));
        pd_free_iso(&p); pd_free_iso(&c);
      }
      vput("]");
    }
    vput("],\"isos2\":["); for (unsigned int i = 0; i < n; i++) { if (i) vput(","); put_iso(t[i]); }
    vput("]"); ev_end();
    pd_free_isos(&n, &t);
  } else {                               /* isos a b kind: all the maps */
    unsigned int n = 0; int kind = ti(3);
    pd_iso_t **t = kind == 0 ? pd_build_isos(R[a], R[b], &n) : kind == 1 ? pd_build_map_isomorphisms(R[a], R[b], &n) : pd_build_diagram_isotopies(R[a], R[b], &n);
    ev_begin("isos"); ev_srcs(-1, 2, S); ev_same(); vput(",\"k\":%d,\"isos\":[", kind);
    for (unsigned int i = 0; i < n; i++) { if (i) vput(","); put_iso(t[i]); }
    vput("]"); ev_end();
    pd_free_isos(&n, &t);
  }
}

#include "pdstore.h"
#include "pdquery.h"
#include "pdhomfly.h"
#include "pdproj.h"
#include "pdtangle.h"

static void text_command(void) {
  long S[16], A[16];
  if (!strcmp(tok[0], "txt")) {          /* txt s1 s2 ..: written to one file, read back one after the other */
    int k = ntok - 1; pd_code_t *o[16];
    FILE *f = fopen("a.pdcode", "w");
    for (int i = 0; i < k; i++) { S[i] = ti(1 + i); pd_write(f, R[S[i]]); if (i % 2) fprintf(f, "\n"); }
    fclose(f);
    f = fopen("a.pdcode", "r");
    for (int i = 0; i < k; i++) { int err = 0; o[i] = i % 2 ? pd_read_err(f, &err) : pd_read(f); if (err) { printf("err %d\n", err); } }
    fclose(f);
    char *t = slurp("a.pdcode");
    ev_begin("txt"); ev_srcs(-1, k, S); vput(",\"text\":"); put_tokens(t); ev_out(k, o); ev_end();
    free(t);
  } else if (!strcmp(tok[0], "rvar")) {  /* rvar s drop: the same diagram with optional parts left out / laid out differently */
    int s = ti(1); FILE *f = fopen("v.pdcode", "w"); my_write(f, R[s], tok[2]); fclose(f);
    f = fopen("v.pdcode", "r"); pd_code_t *o = pd_read(f); fclose(f);
    S[0] = s; ev_begin("rvar"); ev_srcs(-1, 1, S);
    for (int i = 0; i < 5; i++) A[i] = strchr(tok[2], "htgwp"[i]) != NULL;
    ev_ints("a", 5, A); ev_out(1, &o); ev_end();
  } else if (!strcmp(tok[0], "rtext")) { /* rtext useerr text: arbitrary text through the reader */
    FILE *f = fopen("m.pdcode", "w"); fputs(pct(tok[2]), f); fclose(f);
    f = fopen("m.pdcode", "r"); int err = 0;
    pd_code_t *o = ti(1) ? pd_read_err(f, &err) : pd_read(f); fclose(f);
    ev_begin("rtext"); vput(",\"e\":%ld,\"err\":%d", ti(1), err);
    if (o && err) vput(",\"out\":[{\"n\":-2}]"); else ev_out(1, &o);
    ev_end();
  } else if (!strcmp(tok[0], "mut")) {   /* mut s k kind val: token k of the written file changed */
    int s = ti(1); long k = ti(2), kind = ti(3), val = ti(4);
    FILE *f = fopen("m0", "w"); pd_write(f, R[s]); fclose(f);
    char *t = slurp("m0"); f = fopen("m1", "w");
    long i = 0, nt = 0; char *q;
    for (q = t; *q;) { while (*q && strchr(" \n,", *q)) q++; if (!*q) break; nt++; while (*q && !strchr(" \n,", *q)) q++; }
    k %= nt;
    for (q = t; *q;) {
      while (*q && strchr(" \n,", *q)) fputc(*q++, f);
      if (!*q) break;
      char *b = q; while (*q && !strchr(" \n,", *q)) q++;
      if (i++ == k) {
        bool num = b[0] >= '0' && b[0] <= '9'; long v = strtol(b, NULL, 10);
        if (kind == 0) { if (num) fprintf(f, "%ld", v + val); else fprintf(f, "%ld", val); }
        else if (kind == 1) ;                            /* token missing */
        else if (kind == 2) fprintf(f, "x%ld", val);     /* garbage */
        else if (kind == 3) break;                       /* file ends here */
        else if (kind == 4) { fwrite(b, 1, q - b, f); fputc(' ', f); fwrite(b, 1, q - b, f); } /* doubled */
        else if (kind == 5) fprintf(f, "%ld", val);
        else if (kind == 6) fprintf(f, "%s", (b[0] == '+') ? "-" : (b[0] == '-' && b[1] != '>') ? "+" : num ? "-1" : "!");
      } else fwrite(b, 1, q - b, f);
    }
    fclose(f); free(t);
    f = fopen("m1", "r"); int err = 0; pd_code_t *o = pd_read_err(f, &err); fclose(f);
    f = fopen("m1", "r"); pd_code_t *o2 = pd_read(f); fclose(f);
    ev_begin("mut"); A[0] = k; A[1] = kind; A[2] = val; ev_ints("a", 3, A); vput(",\"err\":%d,\"null2\":%d", err, o2 == NULL);
    if (o && err) vput(",\"out\":[{\"n\":-2}]"); else ev_out(1, &o);
    ev_end();
  } else if (!strcmp(tok[0], "kt")) {    /* KnotTheory text: written and read back */
    int s = ti(1); S[0] = s;
    FILE *f = fopen("k.txt", "w"); watch(R[s]); pd_write_KnotTheory(f, R[s]); fclose(f);
    f = fopen("k.txt", "r"); pd_code_t *o = pd_read_KnotTheory(f); fclose(f);
    char *t = slurp("k.txt");
    ev_begin("kt"); ev_srcs(-1, 1, S); ev_same();
    /* numbers only, plus the text with the numbers masked */
    vput(",\"nums\":["); int first = 1; char *mask = calloc(strlen(t) + 2, 1), *m = mask;
    for (char *q = t; *q;) {
      if (*q >= '0' && *q <= '9') { vput("%s%ld", first ? "" : ",", strtol(q, &q, 10)); first = 0; *m++ = '#'; }
      else { if (*q != ' ' && *q != '\n') *m++ = *q; q++; }
    }
    vput("],\"mask\":"); vstr(mask); ev_out(1, &o); ev_end(); free(t); free(mask);
  } else if (!strcmp(tok[0], "ktread")) { /* ktread text : any text */
    FILE *f = fopen("k.txt", "w"); fputs(pct(tok[1]), f); fclose(f);
    f = fopen("k.txt", "r"); pd_code_t *o = pd_read_KnotTheory(f); fclose(f);
    ev_begin("ktread"); ev_out(1, &o); ev_end();
  } else if (!strcmp(tok[0], "pack")) {
    int s = ti(1); S[0] = s; unsigned int len = 0; watch(R[s]);
    unsigned int *w = pd_pack(R[s], &len), *w2 = malloc(len * sizeof(unsigned int));
    memcpy(w2, w, len * sizeof(unsigned int));       /* exactly the announced number of words */
    pd_code_t *o = pd_unpack(w2);
    A[0] = len; ev_begin("pack"); ev_srcs(-1, 1, S); ev_ints("a", 1, A); ev_same(); ev_out(1, &o); ev_end();
    free(w); free(w2); pd_code_free(&o);
  } else { fprintf(stderr, "unknown command %s\n", tok[0]); _exit(3); }
}

static void run_command(void) {
  long A[16], S[16];
  if (is("build")) {            /* build r n mate.. out.. sg.. : the input is echoed so that the spec can compare */
    int r = ti(1), n = ti(2); pd_code_t *o = build_from(2);
    ev_begin("build"); vput(",\"r\":%d,\"in\":{\"n\":%d,\"mate\":[", r, n);
    int t = 3;
    for (int i = 0; i < 4 * n; i++) vput("%s%ld", i ? "," : "", ti(t++));
    vput("],\"out\":["); for (int i = 0; i < 4 * n; i++) vput("%s%ld", i ? "," : "", ti(t++));
    vput("],\"sg\":["); for (int i = 0; i < n; i++) vput("%s%ld", i ? "," : "", ti(t++));
    vput("]}"); ev_out(1, &o); ev_end(); setreg(r, o);
  } else if (is("load")) {      /* as build, without the echo: just sets the register and logs it */
    int r = ti(1); pd_code_t *o = build_from(2);
    ev_begin("load"); vput(",\"r\":%d", r); ev_out(1, &o); ev_end(); setreg(r, o);
  } else if (is("fam")) {       /* fam r name a b c */
    int r = ti(1); pd_code_t *o = NULL;
    if (!strcmp(tok[2], "unknot")) o = pd_build_unknot(ti(3));
    else if (!strcmp(tok[2], "twist")) o = pd_build_twist_knot(ti(3));
    else if (!strcmp(tok[2], "torus")) o = pd_build_torus_knot(ti(3), ti(4));
    else if (!strcmp(tok[2], "chain")) o = pd_build_simple_chain(ti(3));
    else if (!strcmp(tok[2], "wye")) o = pd_build_unknot_wye(ti(3), ti(4), ti(5));
    ev_begin("fam"); vput(",\"r\":%d,\"name\":\"%s\"", r, tok[2]);
    for (int i = 0; i < 3; i++) A[i] = ti(3 + i);
    ev_ints("a", 3, A); ev_out(1, &o); ev_end(); setreg(r, o);
  } else if (is("tags")) {      /* the user assigns component tags: tags r t0 t1 .. (cycled) */
    int r = ti(1);
    for (pd_idx_t i = 0; i < R[r]->ncomps; i++) R[r]->comp[i].tag = (pd_tag_t)ti(2 + i);
    ev_begin("load"); vput(",\"r\":%d", r); ev_out(1, &R[r]); ev_end();
  } else if (is("rottags")) {   /* rotate the existing tags by k and shift by m: still distinct */
    int r = ti(1); pd_idx_t k = ti(2), m = ti(3), nc = R[r]->ncomps;
    for (pd_idx_t i = 0; i < nc; i++) R[r]->comp[i].tag = (pd_tag_t)('A' + (i + k) % nc + m);
    ev_begin("load"); vput(",\"r\":%d", r); ev_out(1, &R[r]); ev_end();
  } else if (is("setuid")) {
    int r = ti(1); R[r]->uid = ti(2);
    ev_begin("load"); vput(",\"r\":%d", r); ev_out(1, &R[r]); ev_end();
  } else if (is("signs")) {     /* the user changes crossing signs: bit i of mask; 2 -> unset all */
    int r = ti(1); long m = ti(2);
    for (pd_idx_t i = 0; i < R[r]->ncross; i++) R[r]->cross[i].sign = m < 0 ? 2 : ((m >> (i % 24)) & 1);
    ev_begin("load"); vput(",\"r\":%d", r); ev_out(1, &R[r]); ev_end();
  } else if (is("unsign")) {    /* the signs of the crossings in the mask become unset */
    int r = ti(1); long m = ti(2);
    for (pd_idx_t i = 0; i < R[r]->ncross; i++) if ((m >> (i % 24)) & 1) R[r]->cross[i].sign = PD_UNSET_ORIENTATION;
    ev_begin("load"); vput(",\"r\":%d", r); ev_out(1, &R[r]); ev_end();
  } else if (is("copy")) {
    int r = ti(1), s = ti(2); S[0] = s; A[0] = 0; watch(R[s]);
    one_out("copy", r, 1, S, 1, A, pd_copy(R[s]), true);
  } else if (is("copynew")) {
    int r = ti(1), s = ti(2); S[0] = s; A[0] = ti(3); watch(R[s]);
    one_out("copy", r, 1, S, 1, A, pd_copy_newsize(R[s], ti(3)), true);
  } else if (is("regen")) {
    int r = ti(1);
    if (R[r]->ncross == 0) return;
    pd_regenerate(R[r]);
    S[0] = r; ev_begin("regen"); ev_srcs(r, 1, S); ev_out(1, &R[r]); ev_end();
  } else if (is("reorient")) {  /* reorient r comp orient */
    int r = ti(1); pd_idx_t c = ti(2) % R[r]->ncomps;
    pd_reorient_component(R[r], c, ti(3));
    S[0] = r; A[0] = c; A[1] = ti(3);
    ev_begin("reorient"); ev_srcs(r, 1, S); ev_ints("a", 2, A); ev_out(1, &R[r]); ev_end();
  } else if (is("renumber")) {
    int r = ti(1); pd_idx_t c = ti(2) % R[r]->ncomps;
    pd_renumber_component(R[r], c, ti(3));
    S[0] = r; A[0] = c; A[1] = ti(3);
    ev_begin("renumber"); ev_srcs(r, 1, S); ev_ints("a", 2, A); ev_out(1, &R[r]); ev_end();
  } else if (is("simplify")) {
    int r = ti(1), s = ti(2); S[0] = s; watch(R[s]);
    one_out("simplify", r, 1, S, 0, A, pd_simplify(R[s]), r >= 0);
  } else if (is("split")) {     /* split seed s1 s2 ..: a diagram made of the registers side by side, everything shuffled, split again */
    int k = ntok - 2, n = 0, e = 0, c = 0; unsigned z = ti(1) * 2654435761u + 7;
    for (int q = 0; q < k; q++) { pd_code_t *p = R[S[q] = ti(2 + q)]; watch(p); n += p->ncross; e += p->nedges; c += p->ncomps; }
    pd_code_t *U = pd_code_new((n > e ? n : e) + c + 1); U->ncross = n; U->nedges = e; U->ncomps = 0; U->nfaces = 0;
    int *xn = calloc(n + 1, sizeof(int)), *en = calloc(e + 1, sizeof(int)), *ro = calloc(n + 1, sizeof(int)), *cn = calloc(c + 1, sizeof(int));
    for (int i = 0; i < n; i++) xn[i] = i;
    for (int i = 0; i < e; i++) en[i] = i;
    for (int i = 0; i < c; i++) cn[i] = i;
#define RND(m) ((int)((z = z * 1664525u + 1013904223u) >> 9) % (m))
    for (int i = n - 1; i > 0; i--) { int j = RND(i + 1), h = xn[i]; xn[i] = xn[j]; xn[j] = h; }
    for (int i = e - 1; i > 0; i--) { int j = RND(i + 1), h = en[i]; en[i] = en[j]; en[j] = h; }
    for (int i = c - 1; i > 0; i--) { int j = RND(i + 1), h = cn[i]; cn[i] = cn[j]; cn[j] = h; }
    for (int i = 0; i < n; i++) ro[i] = RND(4);
    int xb = 0, eb = 0, cb = 0;
    for (int q = 0; q < k; q++) {
      pd_code_t *p = R[S[q]];
      for (int i = 0; i < p->ncross; i++) { pd_crossing_t *x = &U->cross[xn[xb + i]]; x->sign = p->cross[i].sign; for (int j = 0; j < 4; j++) x->edge[(j + ro[xb + i]) % 4] = en[eb + p->cross[i].edge[j]]; }
      for (int i = 0; i < p->nedges; i++) {
        pd_edge_t *t = &U->edge[en[eb + i]]; *t = p->edge[i];
        if (p->ncross) { t->headpos = (t->headpos + ro[xb + t->head]) % 4; t->tailpos = (t->tailpos + ro[xb + t->tail]) % 4; t->head = xn[xb + t->head]; t->tail = xn[xb + t->tail]; }
      }
      for (int i = 0; i < p->ncomps; i++) {
        pd_component_t *t = &U->comp[cn[cb + i]]; t->nedges = p->comp[i].nedges; t->tag = p->comp[i].tag; t->edge = calloc(t->nedges + 1, sizeof(pd_idx_t));
        for (pd_idx_t j = 0; j < t->nedges; j++) t->edge[j] = en[eb + p->comp[i].edge[j]];
      }
      xb += p->ncross; eb += p->nedges; cb += p->ncomps;
    }
    U->ncomps = c; free(xn); free(en); free(ro); free(cn);
    pd_code_t **o = NULL; int m = pd_split_diagram(U, &o);
    ev_begin("split"); ev_srcs(-1, k, S); ev_same(); ev_out(m, o); ev_end();
    for (int i = 0; i < m; i++) pd_code_free(&o[i]);
    free(o); pd_code_free(&U);
  } else if (is("consum")) {    /* consum r a ea b eb */
    int r = ti(1), a = ti(2), b = ti(4);
    long ea = ti(3) % R[a]->nedges, eb = ti(5) % R[b]->nedges;
    S[0] = a; S[1] = b; A[0] = ea; A[1] = eb; watch(R[a]); watch(R[b]);
    one_out("consum", r, 2, S, 2, A, pd_connect_sum(R[a], ea, R[b], eb), r >= 0);
  } else if (is("sweep")) {     /* every move applicable to register s, one event each */
    int s = ti(1); const char *what = tok[2]; pd_code_t *pd = R[s];
    if (pd->ncross == 0) {
      if (strchr(what, 'a')) do_r1add(-1, s, 0, 0, false);
      return;
    }
    if (strchr(what, 'd')) for (pd_idx_t c = 0; c < pd->ncross; c++) if (loop_at(pd, c)) do_r1del(-1, s, c, false);
    if (strchr(what, 'a')) for (pd_idx_t f = 0; f < pd->nfaces; f++) for (pd_idx_t j = 0; j < pd->face[f].nedges; j++) do_r1add(-1, s, f, j, false);
    if (strchr(what, '2')) for (pd_idx_t f = 0; f < pd->nfaces; f++) {
      pd_idx_t c0, c1;
      if (bigon_face(pd, f, &c0, &c1)) { do_r2del(-1, s, c0, c1, false); do_r2del(-1, s, c1, c0, false); }
    }
    if (strchr(what, 'b')) for (pd_idx_t f = 0; f < pd->nfaces; f++) for (pd_idx_t i = 0; i < pd->face[f].nedges; i++)
      for (pd_idx_t j = 0; j < pd->face[f].nedges; j++)
        if (pd->face[f].edge[i] != pd->face[f].edge[j]) do_r2add(-1, s, f, i, j, false);
    if (strchr(what, '3')) for (pd_idx_t f = 0; f < pd->nfaces; f++) if (triangle_face(pd, f)) do_r3(-1, s, f, false);
  } else if (is("step")) {      /* step r which choice1 choice2: one applicable move, chosen by the numbers; result kept */
    int r = ti(1); char w = tok[2][0]; unsigned long k1 = ti(3), k2 = ti(4); pd_code_t *pd = R[r];
    if (w == 'd') {
      if (!pd->ncross) return;
      for (pd_idx_t i = 0; i < pd->ncross; i++) { pd_idx_t c = (i + k1) % pd->ncross; if (loop_at(pd, c)) { do_r1del(r, r, c, true); return; } }
    } else if (w == 'a') {
      pd_idx_t f = k1 % pd->nfaces; do_r1add(r, r, f, k2 % pd->face[f].nedges, true);
    } else if (w == '2') {
      if (!pd->ncross) return;
      for (pd_idx_t i = 0; i < pd->nfaces; i++) {
        pd_idx_t c0, c1, f = (i + k1) % pd->nfaces;
        if (bigon_face(pd, f, &c0, &c1)) { if (k2 & 1) do_r2del(r, r, c0, c1, true); else do_r2del(r, r, c1, c0, true); return; }
      }
    } else if (w == 'b') {
      if (!pd->ncross) return;
      for (pd_idx_t q = 0; q < pd->nfaces; q++) {
        pd_idx_t f = (q + k1) % pd->nfaces, m = pd->face[f].nedges;
        for (pd_idx_t i = 0; i < m; i++) { pd_idx_t a = (i + k2) % m, b = (a + 1 + k1) % m; if (pd->face[f].edge[a] != pd->face[f].edge[b]) { do_r2add(r, r, f, a, b, true); return; } }
      }
    } else if (w == '3') {
      if (!pd->ncross) return;
      for (pd_idx_t i = 0; i < pd->nfaces; i++) { pd_idx_t f = (i + k1) % pd->nfaces; if (triangle_face(pd, f)) { do_r3(r, r, f, true); return; } }
    }
  } else if (is("okq")) {       /* the library's own verdict */
    int r = ti(1); S[0] = r; watch(R[r]);
    long v = pd_ok(R[r]);
    ev_begin("okq"); ev_srcs(-1, 1, S); ev_same(); vput(",\"v\":%ld", v); ev_end();
  } else if (is("iso") || is("isos") || is("isostr") || is("autos")) iso_command();
  else if (is("q")) query_command();
  else if (is("tangle") || is("tangles") || is("tangleg") || is("overall")) tangle_command();
  else if (is("homfly")) homfly_command();
  else if (is("skein") || is("power")) skein_command();
  else if (is("mirror")) mirror_command();
  else if (is("classify") || (is("classify1") && R[ti(1)]->ncomps == 1)) classify_command();
  else if (is("classify1")) ;
  else if (is("rkt")) ktread_command();
  else if (is("ktload")) ktload_command();
  else if (is("curve") || is("bigcurve") || is("chomfly") || is("cclassify")) curve_command();
  else if (!store_command()) text_command();
}

static void episode_reset(void) { memset(R, 0, sizeof R); memset(ST, 0, sizeof ST); CV = NULL; }
