/* closed polygonal curves -> diagrams.  curve r e2 nc {nv x y z ...}: integer vertices, scaled by 2^e2 */
static plCurve *CV; static int cv_tok, cv_e2;
static gsl_rng *cv_rng;
static plCurve *curve_from(int t, int e2) {
  int nc = ti(t++), nv[16], cc[16]; bool open[16]; int u = t;
  for (int i = 0; i < nc; i++) { nv[i] = ti(u); u += 1 + 3 * nv[i]; open[i] = false; cc[i] = 0; }
  plCurve *L = plc_new(nc, nv, open, cc);
  for (int i = 0; i < nc; i++) { t++; for (int j = 0; j < nv[i]; j++) for (int k = 0; k < 3; k++) L->cp[i].vt[j].c[k] = ldexp((double)ti(t++), e2); }
  plc_fix_wrap(L);
  return L;
}
static char *curve_text(plCurve *L) {     /* every coordinate, wraparound included, for "not modified" */
  size_t n = 64; for (int i = 0; i < L->nc; i++) n += 80 * (L->cp[i].nv + 3);
  char *b = malloc(n), *p = b;
  for (int i = 0; i < L->nc; i++) { p += sprintf(p, "[%d %d]", L->cp[i].nv, L->cp[i].open); for (int j = -1; j <= L->cp[i].nv; j++) for (int k = 0; k < 3; k++) p += sprintf(p, "%a ", L->cp[i].vt[j].c[k]); }
  return b;
}
static void curve_command(void) {
  if (!cv_rng) { cv_rng = gsl_rng_alloc(gsl_rng_mt19937); }
  if (is("curve")) {
    int r = ti(1), t; long S[1] = {0}; (void)S;
    if (CV) plc_free(CV);
    CV = curve_from(3, ti(2));
    gsl_rng_set(cv_rng, 7);
    char *b = curve_text(CV);
    pd_code_t *o = pd_code_from_plCurve(cv_rng, CV);
    char *a = curve_text(CV);
    ev_begin("curve"); vput(",\"r\":%d,\"same\":%d,\"v\":[", r, !strcmp(a, b)); free(a); free(b);
    t = 4; for (int i = 0; i < CV->nc; i++) { int nv = ti(t++); vput("%s[", i ? "," : ""); for (int j = 0; j < nv; j++, t += 3) vput("%s[%ld,%ld,%ld]", j ? "," : "", ti(t), ti(t + 1), ti(t + 2)); vput("]"); }
    vput("]"); ev_out(1, &o); ev_end(); setreg(r, o);
  } else if (is("bigcurve")) {     /* only the numbers of a large diagram */
    int t; if (CV) plc_free(CV);
    CV = curve_from(3, ti(2)); gsl_rng_set(cv_rng, 7); char *b = curve_text(CV);
    pd_code_t *o = pd_code_from_plCurve(cv_rng, CV); char *a = curve_text(CV); int pos = 0, neg = 0;
    for (pd_idx_t i = 0; i < o->ncross; i++) { pos += o->cross[i].sign == PD_POS_ORIENTATION; neg += o->cross[i].sign == PD_NEG_ORIENTATION; }
    ev_begin("bigcurve"); vput(",\"same\":%d,\"ok\":%d,\"n\":[%u,%u,%u,%u],\"sg\":[%d,%d],\"ce\":[", !strcmp(a, b), (int)pd_ok(o), o->ncross, o->nedges, o->nfaces, o->ncomps, pos, neg); free(a); free(b);
    for (pd_idx_t i = 0; i < o->ncomps; i++) vput("%s%u", i ? "," : "", o->comp[i].nedges);
    vput("],\"v\":[");
    t = 4; for (int i = 0; i < CV->nc; i++) { int nv = ti(t++); vput("%s[", i ? "," : ""); for (int j = 0; j < nv; j++, t += 3) vput("%s[%ld,%ld,%ld]", j ? "," : "", ti(t), ti(t + 1), ti(t + 2)); vput("]"); }
    vput("]"); ev_end(); pd_code_free(&o);
  } else if (is("chomfly")) {
    char *b = curve_text(CV), *h = plc_homfly(cv_rng, CV), *a = curve_text(CV);
    ev_begin("chomfly"); vput(",\"same\":%d", !strcmp(a, b)); put_poly(h ? h : ""); ev_end(); free(a); free(b); free(h);
  } else if (is("cclassify")) {    /* cclassify [cr ind] */
    int np = -1; char *b = curve_text(CV); plc_knottype *kt = plc_classify(cv_rng, CV, &np); char *a = curve_text(CV);
    ev_begin("cclassify"); vput(",\"same\":%d,\"k\":[%ld,%ld],\"np\":%d,\"null\":%d,\"kt\":[", !strcmp(a, b), ntok > 2 ? ti(1) : -1L, ntok > 2 ? ti(2) : -1L, np, kt == NULL);
    for (int i = 0; kt && i < np; i++) {
      vput("%s{\"f\":[", i ? "," : "");
      for (int j = 0; j < kt[i].nf; j++) vput("%s[%d,%d]", j ? "," : "", kt[i].cr[j], kt[i].ind[j]);
      vput("],\"p\":"); put_lmpoly(kt[i].homfly); vput("}");
    }
    vput("]"); ev_end(); free(kt); free(a); free(b);
  }
}
