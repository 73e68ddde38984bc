/* Conformance driver for octrope.h: struts, minrad, thickness, ropelength, strut files. */
#include "vdrv.h"
#include <float.h>
#include <plCurve.h>
#include <octrope.h>

static plCurve *L; static double *save; static int nsave;
static octrope_strut *SL; static int nSL; static octrope_mrloc *ML; static int nML;
static int is(const char *s) { return !strcmp(tok[0], s); }
static long g(double x) { double q = nearbyint(x * 1024.0); return fabs(q) < 2e9 ? (long)q : 2000000000L; }
static int *IP(void) { return NULL; }
static void keep(void) {                     /* the visible numbers of the curve */
  free(save); nsave = 0; save = malloc(sizeof(double) * 3 * (plc_num_verts(L) + 1));
  for (int c = 0; c < L->nc; c++) for (int v = 0; v < L->cp[c].nv; v++) for (int k = 0; k < 3; k++) save[nsave++] = L->cp[c].vt[v].c[k];
}
static int same(void) {
  int n = 0;
  for (int c = 0; c < L->nc; c++) for (int v = 0; v < L->cp[c].nv; v++) for (int k = 0; k < 3; k++) if (n >= nsave || save[n++] != L->cp[c].vt[v].c[k]) return 0;
  return n == nsave;
}
static void put_struts(octrope_strut *s, int n) {
  vput("[");
  for (int i = 0; i < n; i++) {
    plc_vector e[2]; octrope_strut_ends(L, &s[i], e);
    vput("%s{\"c\":[%d,%d],\"v\":[%d,%d],\"s\":[%ld,%ld],\"len\":%ld,\"x\":[[%ld,%ld,%ld],[%ld,%ld,%ld]]}", i ? "," : "", s[i].component[0], s[i].component[1], s[i].lead_vert[0], s[i].lead_vert[1],
         g(s[i].position[0]), g(s[i].position[1]), g(s[i].length), g(e[0].c[0]), g(e[0].c[1]), g(e[0].c[2]), g(e[1].c[0]), g(e[1].c[1]), g(e[1].c[2]));
  }
  vput("]");
}
static void put_mrs(octrope_mrloc *m, int n) {
  vput("[");
  for (int i = 0; i < n; i++) vput("%s{\"c\":%d,\"v\":%d,\"sv\":%d,\"mr\":%ld}", i ? "," : "", m[i].component, m[i].vert, m[i].svert, g(m[i].mr));
  vput("]");
}
static void episode_reset(void) { L = NULL; SL = NULL; ML = NULL; nSL = nML = 0; save = NULL; nsave = 0; (void)IP; }

static void run_command(void) {
  if (is("curve")) {                        /* curve nc {nv open verts} */
    int nc = ti(1), p = 2, nv[16], cc[16] = {0}; bool op[16];
    for (int i = 0; i < nc; i++) { nv[i] = ti(p); op[i] = ti(p + 1); p += 2 + 3 * nv[i]; }
    L = plc_new(nc, nv, op, cc); p = 2;
    for (int i = 0; i < nc; i++) { p += 2; for (int j = 0; j < nv[i]; j++, p += 3) L->cp[i].vt[j] = plc_build_vect(ti(p), ti(p + 1), ti(p + 2)); }
    plc_fix_wrap(L); keep();
    vput("{\"op\":\"curve\",\"cp\":["); 
    for (int i = 0; i < nc; i++) {
      vput("%s{\"open\":%d,\"vt\":[", i ? "," : "", op[i] ? 1 : 0);
      for (int j = 0; j < nv[i]; j++) vput("%s[%d,%d,%d]", j ? "," : "", (int)L->cp[i].vt[j].c[0], (int)L->cp[i].vt[j].c[1], (int)L->cp[i].vt[j].c[2]);
      vput("]}");
    }
    vput("]}"); vflush();
  } else if (is("struts")) {                /* struts cutoff epsilon size levels mem */
    double cut = td(1), eps = td(2), sh = -7; int n = ti(3), ms = ti(5); void *mem = ms ? malloc(ms) : NULL;
    octrope_set_levels(ti(4));
    octrope_strut *s = n ? malloc(sizeof(octrope_strut) * n) : NULL;
    int k = octrope_struts(L, cut, eps, s, n, &sh, mem, ms), err = octrope_error_num;
    vput("{\"op\":\"struts\",\"cut\":%ld,\"eps\":%ld,\"sl\":%d,\"ret\":%d,\"sh\":%ld,\"err\":%d,\"list\":", g(cut), g(eps), n, k, g(sh), err);
    put_struts(s, n ? k : 0); vput(",\"same\":%d}", same()); vflush();
    free(mem); free(SL); SL = s; nSL = n ? k : 0;
  } else if (is("minrad")) {                /* minrad cutoff epsilon size */
    double cut = td(1), eps = td(2); int n = ti(3), k = -7; octrope_mrloc *m = n ? malloc(sizeof(octrope_mrloc) * n) : NULL;
    double r = octrope_minrad(L, cut, eps, m, n, n ? &k : NULL);
    vput("{\"op\":\"minrad\",\"cut\":%ld,\"eps\":%ld,\"sl\":%d,\"ret\":%d,\"mr\":%ld,\"val\":%ld,\"list\":", g(cut), g(eps), n, n ? k : 0, g(r), g(octrope_minradval(L)));
    put_mrs(m, n ? k : 0); vput(",\"same\":%d}", same()); vflush();
    free(ML); ML = m; nML = n ? k : 0;
  } else if (is("all")) {                   /* all lnum lden mrcut mreps mrsize cut eps size levels mem which */
    double lam = td(1) / td(2), rl = -7, th = -7, len = -7, mr = -7, sh = -7; int nm = ti(5), ns = ti(8), km = -7, ks = -7, ms = ti(10), w = ti(11);
    octrope_mrloc *m = nm ? malloc(sizeof(octrope_mrloc) * nm) : NULL; octrope_strut *s = ns ? malloc(sizeof(octrope_strut) * ns) : NULL; void *mem = ms ? malloc(ms) : NULL;
    octrope_set_levels(ti(9));
    octrope(L, w & 1 ? &rl : NULL, w & 2 ? &th : NULL, w & 4 ? &len : NULL, w & 8 ? &mr : NULL, w & 16 ? &sh : NULL, td(3), td(4), m, nm, nm ? &km : NULL, td(6), td(7), s, ns, &ks, mem, ms, lam);
    double th2 = octrope_thickness(L, NULL, 0, lam), rl2 = octrope_ropelength(L, NULL, 0, lam), po = octrope_poca(L, NULL, 0);
    vput("{\"op\":\"all\",\"lam\":[%ld,%ld],\"w\":%d,\"rl\":%ld,\"th\":%ld,\"len\":%ld,\"mr\":%ld,\"sh\":%ld", ti(1), ti(2), w, g(w & 1 ? rl * th2 : -7), g(th), g(len), g(mr), g(sh));
    vput(",\"th2\":%ld,\"rl2\":%ld,\"poca\":%ld,\"clen\":%ld", g(th2), g(rl2 * th2), g(po), g(octrope_curvelength(L)));
    vput(",\"mcut\":%ld,\"meps\":%ld,\"msl\":%d,\"mret\":%d,\"mlist\":", g(td(3)), g(td(4)), nm, nm ? km : 0); put_mrs(m, nm ? km : 0);
    vput(",\"cut\":%ld,\"eps\":%ld,\"sl\":%d,\"ret\":%d,\"list\":", g(td(6)), g(td(7)), ns, ks); put_struts(s, ns ? ks : 0);
    vput(",\"same\":%d}", same()); vflush(); free(m); free(s); free(mem);
  } else if (is("file")) {                  /* file: what was listed last, written and read again */
    for (int i = 0; i < nSL; i++) SL[i].compression = i * 0.25;
    for (int i = 0; i < nML; i++) ML[i].compression = i * 0.5 + 1;
    FILE *f = fopen("s.txt", "w"); octrope_strutfile_write(nSL, SL, nML, ML, f); int e1 = octrope_error_num; fclose(f);
    int a = -7, b = -7; octrope_strut *s = NULL; octrope_mrloc *m = NULL;
    f = fopen("s.txt", "r"); octrope_strutfile_read(L, &a, &s, &b, &m, f); int e2 = octrope_error_num; fclose(f);
    vput("{\"op\":\"file\",\"e\":[%d,%d],\"n\":[%d,%d],\"got\":[%d,%d],\"list\":", e1, e2, nSL, nML, a, b);
    put_struts(SL, nSL); vput(",\"list2\":"); put_struts(s, e2 ? 0 : a); vput(",\"mlist\":"); put_mrs(ML, nML); vput(",\"mlist2\":"); put_mrs(m, e2 ? 0 : b);
    vput(",\"comp\":[");
    int bad = 0; for (int i = 0; !e2 && i < a && i < nSL; i++) if (fabs(s[i].compression - SL[i].compression) > 1e-4 * (1 + i)) bad++;
    for (int i = 0; !e2 && i < b && i < nML; i++) if (fabs(m[i].compression - ML[i].compression) > 1e-4 * (1 + i)) bad++;
    vput("%d],\"same\":%d}", bad, same()); vflush();
  } else if (is("damaged")) {               /* damaged TEXT (percent coded): refused, or records of this curve */
    char *t = pct(tok[1]); FILE *f = fopen("d.txt", "w"); fputs(t, f); fclose(f);
    int a = -7, b = -7; octrope_strut *s = NULL; octrope_mrloc *m = NULL;
    f = fopen("d.txt", "r"); octrope_strutfile_read(L, &a, &s, &b, &m, f); int e = octrope_error_num; fclose(f);
    vput("{\"op\":\"damaged\",\"err\":%d,\"msg\":%d,\"n\":[%d,%d],\"list\":[", e, octrope_error_str[0] ? 1 : 0, a, b);
    for (int i = 0; !e && i < a; i++) vput("%s[%d,%d,%d,%d]", i ? "," : "", s[i].component[0], s[i].lead_vert[0], s[i].component[1], s[i].lead_vert[1]);
    vput("],\"mlist\":[");
    for (int i = 0; !e && i < b; i++) vput("%s[%d,%d]", i ? "," : "", m[i].component, m[i].vert);
    vput("]}"); vflush();
  } else { fprintf(stderr, "unknown command %s\n", tok[0]); abort(); }
}
