/* ---- the error estimator ---- */
static struct { geyer_ips_t *g; double *d; int n, cap; } gy;
static void put_est(double mean, double err, double m) {
  double s = err / 1.96 * sqrt(m), e = s * s * m * m * m;
  vput("\"mean\":%ld,\"fin\":%d,\"est\":%ld", q(mean, 1e4), isfinite(e) != 0, isfinite(e) ? q(e, 1) : -1L);
}
static int geyer_command(void) {
  if (is("gnew")) { if (gy.g) geyer_ips_free(&gy.g); gy.g = geyer_ips_new(ti(1)); gy.n = 0; vput("{\"op\":\"new\",\"b\":%ld}", ti(1)); vflush(); }
  else if (is("gadd")) {
    vput("{\"op\":\"add\",\"v\":[");
    for (int i = 1; i < ntok; i++) {
      if (gy.n == gy.cap) gy.d = realloc(gy.d, sizeof(double) * (gy.cap = 2 * gy.cap + 16));
      gy.d[gy.n++] = ti(i); geyer_ips_add(gy.g, ti(i)); vput("%s%ld", i > 1 ? "," : "", ti(i));
    }
    vput("]}"); vflush();
  } else if (is("gval")) {               /* gval want-error */
    double err = NAN; union { bool b; unsigned char c; } ok; ok.c = 0x5a;
    double v = geyer_ips_value(gy.g, ti(1) ? &err : NULL, &ok.b);
    vput("{\"op\":\"value\",\"want\":%ld,\"ok\":%d,", ti(1), ok.c); put_est(v, err, gy.n); vput("}"); vflush();
  } else if (is("gbat")) {
    double err = NAN; double v = gy.n ? ips_value(gy.d, gy.n, &err) : 0;
    vput("{\"op\":\"batch\","); put_est(v, err, gy.n);
    vput(",\"N\":"); 
    if (gy.n > 1) {
      double *z = malloc(sizeof(double) * gy.n), s = 0, g0, g1, *G = NULL, m = gy.n; int N = -7;
      for (int i = 0; i < gy.n; i++) s += gy.d[i];
      for (int i = 0; i < gy.n; i++) z[i] = gy.d[i] - s / m;
      double sg = ips_sigma_estimator_with_gammas(z, gy.n, &g0, &g1, &G, &N), sg2 = ips_sigma_estimator(z, gy.n), k = m * m * m;
      vput("%d,\"s\":[%ld,%ld],\"g\":[%ld,%ld],\"G\":[", N, q(sg * sg, k), q(sg2 * sg2, k), q(g0, k), q(g1, k));
      for (int i = 0; i < N; i++) vput("%s%ld", i ? "," : "", q(G[i], k));
      vput("]"); free(z); free(G);
    } else vput("-1");
    vput("}"); vflush();
  } else if (is("grun")) {               /* grun v1 n1 v2 n2 ..: a long list of samples with sum zero, given by its runs */
    int m = 0; for (int i = 2; i < ntok; i += 2) m += ti(i);
    double *z = malloc(sizeof(double) * m), g0, g1, *G = NULL; int N = -7, j = 0;
    vput("{\"op\":\"runs\",\"m\":%d,\"v\":[", m);
    for (int i = 1; i + 1 < ntok; i += 2) { vput("%s[%ld,%ld]", i > 1 ? "," : "", ti(i), ti(i + 1)); for (int k = 0; k < ti(i + 1); k++) z[j++] = ti(i); }
    double sg = ips_sigma_estimator_with_gammas(z, m, &g0, &g1, &G, &N);
    vput("],\"s\":%ld,\"g\":[%ld,%ld],\"G\":[", q(sg * sg, m), q(g0, m), q(g1, m));
    for (int i = 0; i < N; i++) vput("%s%ld", i ? "," : "", q(G[i], m));
    vput("]}"); vflush(); free(z); free(G);
  } else if (is("gfree")) { geyer_ips_free(&gy.g); vput("{\"op\":\"free\",\"null\":%d}", gy.g == NULL); vflush(); gy.n = 0; }
  else return 0;
  return 1;
}
