#include "polynomials.h"
/* "-2a^{2} - a^{4} + a^{2}z^{2}" as a list of [coefficient, l, m]; anything else gives ok 0 */
static void put_poly(const char *s) {
  const char *p = s; int first = 1, ok = 1; size_t back;
  vput(",\"poly\":["); back = vlen;
  while (*p) {
    long sg = 1, k = 1, l = 0, m = 0; int any = 0, n = 0;
    if (first) { if (*p == '-') { sg = -1; p++; } }
    else if (!strncmp(p, " + ", 3)) p += 3; else if (!strncmp(p, " - ", 3)) { sg = -1; p += 3; } else { ok = 0; break; }
    if (*p >= '0' && *p <= '9') { char *e; k = strtol(p, &e, 10); p = e; any = 1; }
    if (sscanf(p, "a^{%ld}%n", &l, &n) == 1 && n > 0 && p[n-1] == '}') { p += n; any = 1; } else l = 0;
    n = 0;
    if (sscanf(p, "z^{%ld}%n", &m, &n) == 1 && n > 0 && p[n-1] == '}') { p += n; any = 1; } else m = 0;
    if (!any) { ok = 0; break; }
    vput("%s[%ld,%ld,%ld]", first ? "" : ",", sg * k, l, m); first = 0;
  }
  if (first) ok = 0;
  (void)back;
  vput("],\"ok\":%d", ok);
}
/* the same with the coefficients taken modulo a prime: for numbers of any size */
#define QMOD 30011
static void put_polymod(const char *key, const char *s) {
  const char *p = s; int first = 1, ok = 1;
  vput(",\"%s\":{\"p\":[", key);
  while (*p) {
    long sg = 1, k = 1, l = 0, m = 0; int any = 0, n = 0;
    if (first) { if (*p == '-') { sg = -1; p++; } }
    else if (!strncmp(p, " + ", 3)) p += 3; else if (!strncmp(p, " - ", 3)) { sg = -1; p += 3; } else { ok = 0; break; }
    if (*p >= '1' && *p <= '9') { for (k = 0; *p >= '0' && *p <= '9'; p++) k = (10 * k + (*p - '0')) % QMOD; any = 1; }
    if (sscanf(p, "a^{%ld}%n", &l, &n) == 1 && n > 0 && p[n-1] == '}') { p += n; any = 1; } else l = 0;
    n = 0;
    if (sscanf(p, "z^{%ld}%n", &m, &n) == 1 && n > 0 && p[n-1] == '}') { p += n; any = 1; } else m = 0;
    if (!any) { ok = 0; break; }
    vput("%s[%ld,%ld,%ld]", first ? "" : ",", (sg * k + QMOD) % QMOD, l, m); first = 0;
  }
  vput("],\"ok\":%d}", ok && !first);
}
static void put_darts(int t) {         /* echo of the input of build_from */
  int n = ti(t++); vput("{\"n\":%d,\"mate\":[", n);
  for (int i = 0; i < 4 * n; i++) vput("%s%ld", i ? "," : "", ti(t++));
  vput("],\"out\":["); for (int i = 0; i < 4 * n; i++) vput("%s%ld", i ? "," : "", ti(t++));
  vput("],\"sg\":["); for (int i = 0; i < n; i++) vput("%s%ld", i ? "," : "", ti(t++));
  vput("]}");
}
static void skein_command(void) {
  if (is("skein")) {                   /* skein c <darts> <darts without crossing c>: three polynomials */
    int c = ti(1), n = ti(2), t0 = 3 + 9 * n; pd_code_t *a = build_from(2), *b, *z = build_from(t0);
    char sg[8]; int at = 3 + 8 * n + c; char *keep = tok[at]; sprintf(sg, "%ld", 1 - ti(at)); tok[at] = sg; b = build_from(2); tok[at] = keep;
    char *h[3] = {pd_homfly(a), pd_homfly(b), pd_homfly(z)};
    ev_begin("skein"); vput(",\"c\":%d,\"in\":", c); put_darts(2); vput(",\"in0\":"); put_darts(t0);
    put_polymod("a", h[0] ? h[0] : ""); put_polymod("b", h[1] ? h[1] : ""); put_polymod("z", h[2] ? h[2] : ""); ev_end();
    for (int i = 0; i < 3; i++) free(h[i]);
    pd_code_free(&a); pd_code_free(&b); pd_code_free(&z);
  } else {                             /* power k r e: the connected sum of k copies of register r */
    int k = ti(1), r = ti(2); char *h1 = pd_homfly(R[r]); pd_code_t *s = pd_copy(R[r]);
    for (int i = 1; i < k; i++) { pd_code_t *o = pd_connect_sum(s, (ti(3) * i) % s->nedges, R[r], ti(3) % R[r]->nedges); pd_code_free(&s); s = o; }
    char *h = pd_homfly(s); long S[1] = {r};
    ev_begin("power"); ev_srcs(-1, 1, S); vput(",\"k\":%d,\"n\":%u,\"nc\":%u", k, s->ncross, s->ncomps); put_polymod("p", h1 ? h1 : ""); put_polymod("q", h ? h : ""); ev_end();
    free(h); free(h1); pd_code_free(&s);
  }
}
/* homfly r [keep]: the polynomial of register r; kept under a name for later comparison */
static void homfly_command(void) {
  int r = ti(1); long S[1] = {r};
  watch(R[r]);
  char *h = pd_homfly(R[r]);
  ev_begin("homfly"); ev_srcs(-1, 1, S); vput(",\"rel\":\"%s\"", ntok > 2 ? tok[2] : "def");
  long A[3]; for (int i = 0; i < 3; i++) A[i] = ti(3 + i);
  ev_ints("a", 3, A); ev_same(); put_poly(h ? h : ""); ev_end(); free(h);
}
static void mirror_command(void) {     /* mirror r s */
  int r = ti(1), s = ti(2); long S[1] = {s}; pd_code_t *o = pd_copy(R[s]);
  for (pd_idx_t i = 0; i < o->ncross; i++) if (o->cross[i].sign != PD_UNSET_ORIENTATION) o->cross[i].sign = o->cross[i].sign == PD_POS_ORIENTATION ? PD_NEG_ORIENTATION : PD_POS_ORIENTATION;
  ev_begin("mirror"); ev_srcs(r, 1, S); ev_out(1, &o); ev_end(); setreg(r, o);
}
/* the table's form: rows by power of m separated by N, l^0 coefficient in brackets, m^0 row in extra brackets */
static void put_lmpoly(const char *s) {
  int row = 0, zero = -1, nb = 0; const char *p;
  for (p = s; *p; p++) { if (*p == '[') { if (++nb == 2) { zero = row; break; } } if (*p == 'N') { row++; nb = 0; } }
  vput("["); int first = 1; row = 0;
  for (p = s; *p && *p != ' '; row++) {
    const char *e = strchr(p, 'N'); if (!e) break;
    /* position of l^0: the number preceded by the innermost bracket */
    int k = 0, k0 = -1; const char *q;
    for (q = p; q < e;) { if (*q == '[') { k0 = k; q++; } else if (*q == ' ' || *q == ']') q++; else { k++; strtol(q, (char **)&q, 10); } }
    k = 0;
    for (q = p; q < e;) { if (*q == '[' || *q == ' ' || *q == ']') q++; else { long v = strtol(q, (char **)&q, 10); if (v) { vput("%s[%ld,%d,%d]", first ? "" : ",", v, k - k0, row - zero); first = 0; } k++; } }
    p = e + 1;
  }
  vput("]");
}
static void classify_command(void) {   /* classify r */
  int r = ti(1), np = -1; long S[1] = {r}; watch(R[r]);
  plc_knottype *kt = pd_classify(R[r], &np);
  ev_begin("classify"); ev_srcs(-1, 1, S); vput(",\"np\":%d,\"null\":%d,\"kt\":[", np, kt == NULL);
  for (int i = 0; kt && i < np; i++) {
    vput("%s{\"f\":[", i ? "," : "");
    for (int j = 0; j < kt[i].nf; j++) vput("%s[%d,%d]", j ? "," : "", kt[i].cr[j], kt[i].ind[j]);
    vput("],\"p\":"); put_lmpoly(kt[i].homfly); vput("}");
  }
  vput("]"); ev_same(); ev_end(); free(kt);
}
static void ktread_command(void) {     /* rkt text : a knot type as written by a person, as its tokens */
  char *t = pct(tok[1]); plc_knottype *k = plc_read_knottype(t);
  ev_begin("rkt"); vput(",\"null\":%d,\"in\":[", k == NULL);
  for (int i = 2; i + 1 < ntok; i += 2) vput("%s[%ld,%ld]", i > 2 ? "," : "", ti(i), ti(i + 1));
  vput("],\"form\":%d,\"f\":[", ntok > 2);
  for (int i = 0; k && i < k->nf; i++) vput("%s[%d,%d]", i ? "," : "", k->cr[i], k->ind[i]);
  vput("]"); 
  /* and as the library writes it */
  if (k) { FILE *f = fopen("kt.out", "w"); plc_write_knottype(f, *k); fclose(f); char *w = slurp("kt.out"); char *sp = strchr(w, ' '); if (sp) *sp = 0;
    plc_knottype *k2 = plc_read_knottype(w);
    vput(",\"rt\":[");
    for (int i = 0; k2 && i < k2->nf; i++) vput("%s[%d,%d]", i ? "," : "", k2->cr[i], k2->ind[i]);
    vput("]"); free(w); free(k2); } else vput(",\"rt\":[]");
  ev_end(); free(k);
}
static void ktload_command(void) {     /* ktload r text: a KnotTheory code, for later use */
  int r = ti(1); FILE *f = fopen("k.txt", "w"); fputs(pct(tok[2]), f); fclose(f);
  f = fopen("k.txt", "r"); pd_code_t *o = pd_read_KnotTheory(f); fclose(f);
  ev_begin("load"); vput(",\"r\":%d", r); ev_out(1, &o); ev_end(); setreg(r, o);
  if (ntok > 3) { ev_begin("known"); vput(",\"r\":%d,\"k\":[%ld,%ld]", r, ti(3), ti(4)); ev_end(); }
}
