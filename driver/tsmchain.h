/* ---- the chain: triangulation, edge lengths, diagonal lengths, dihedral angles ---- */
static struct { int have; tsmcmc_triangulation_t T; double *e, *d, *a; double R; } ch;
#define U 1e6
static void put_d(const char *nm, const double *x, int n, double u) { vput(",\"%s\":[", nm); for (int i = 0; i < n; i++) vput("%s%ld", i ? "," : "", isfinite(x[i]) ? q(x[i], u) : -2000000000L); vput("]"); }
static void drop_chain(void) { if (ch.have) { tsmcmc_triangulation_free(ch.T); free(ch.e); free(ch.d); free(ch.a); } memset(&ch, 0, sizeof ch); }
static void put_state(void) { put_d("el", ch.e, ch.T.nedges, U); put_d("dl", ch.d, ch.T.ndiags, U); put_d("da", ch.a, ch.T.ndiags, U); }
static double *copyd(const double *x, int n) { double *y = malloc(sizeof(double) * (n + 1)); memcpy(y, x, sizeof(double) * n); return y; }

/* the dihedral at diagonal i of a placed polygon, and how far its two triangles are from flat */
static int third(tsmcmc_triangle_t *t, tsmcmc_triangulation_t T, int a, int b) {
  for (int k = 0; k < 2; k++) { tsmcmc_chord_t *c = t->daughter_type[k] == edge ? &T.edges[t->daughter_chord[k]] : &T.diags[t->daughter_chord[k]];
    for (int j = 0; j < 2; j++) if (c->vt[j] != a && c->vt[j] != b) return c->vt[j]; }
  return -1;
}
static double measure(plCurve *L, tsmcmc_triangulation_t T, int i, double *flat) {
  int A = -1, B = -1; for (int k = 0; k < T.ntri; k++) for (int j = 0; j < 2; j++) if (T.triangles[k].daughter_type[j] == diagonal && T.triangles[k].daughter_chord[j] == i) { A = k; B = T.triangles[k].daughter_tri[j]; }
  int p = T.diags[i].vt[0], r = T.diags[i].vt[1]; plc_vector *v = L->cp[0].vt;
  plc_vector a = v[third(&T.triangles[A], T, p, r)], b = v[third(&T.triangles[B], T, p, r)], F = plc_vect_diff(v[p], v[r]);
  plc_vector nA = plc_cross_prod(plc_vect_diff(v[r], v[p]), plc_vect_diff(a, v[r])), nB = plc_cross_prod(plc_vect_diff(v[p], v[r]), plc_vect_diff(b, v[p]));
  *flat = fmin(plc_norm(nA), plc_norm(nB));
  double t = atan2(plc_dot_prod(nB, plc_cross_prod(nA, F)) / plc_norm(F), plc_dot_prod(nA, nB)) + M_PI;
  return t;
}
static void put_gram(plCurve *L, int n, const char *g, const char *t) {    /* scalar and triple products of the edges */
  plc_vector *e = malloc(sizeof(plc_vector) * n); for (int i = 0; i < n; i++) e[i] = plc_vect_diff(L->cp[0].vt[(i + 1) % n], L->cp[0].vt[i]);
  vput(",\"%s\":[", g); for (int i = 0; i < n; i++) { vput("%s[", i ? "," : ""); for (int j = 0; j < n; j++) vput("%s%ld", j ? "," : "", q(plc_dot_prod(e[i], e[j]), 1e4)); vput("]"); }
  vput("],\"%s\":[", t); for (int i = 0; i < n; i++) { vput("%s[", i ? "," : ""); for (int j = 0; j < n; j++) { vput("%s[", j ? "," : ""); for (int k = 0; k < n; k++) vput("%s%ld", k ? "," : "", q(plc_dot_prod(e[i], plc_cross_prod(e[j], e[k])), 1e4)); vput("]"); } vput("]"); }
  vput("]"); free(e);
}
static void put_embed(plCurve *L) {
  int n = ch.T.nedges, m = ch.T.ndiags; plc_vector *v = L->cp[0].vt;
  double *e = malloc(sizeof(double) * n), *d = malloc(sizeof(double) * (m + 1)), *a = malloc(sizeof(double) * (m + 1)), *f = malloc(sizeof(double) * (m + 1));
  for (int i = 0; i < n; i++) e[i] = plc_distance(v[ch.T.edges[i].vt[0]], v[ch.T.edges[i].vt[1]]);
  for (int i = 0; i < m; i++) { d[i] = plc_distance(v[ch.T.diags[i].vt[0]], v[ch.T.diags[i].vt[1]]); a[i] = measure(L, ch.T, i, &f[i]); }
  vput(",\"nc\":%d,\"nv\":%d,\"open\":%d", L->nc, L->cp[0].nv, L->cp[0].open);
  put_d("me", e, n, U); put_d("md", d, m, U); put_d("ma", a, m, 1e4); put_d("mf", f, m, 1e4);
  vput(",\"v\":["); for (int i = -1; i <= n; i++) vput("%s[%ld,%ld,%ld]", i >= 0 ? "," : "", q(v[i].c[0], 1e4), q(v[i].c[1], 1e4), q(v[i].c[2], 1e4)); vput("]");
  /* and as the library measures it */
  bool *def = calloc(m + 1, sizeof(bool)); tsmcmc_compute_edgelengths(L, ch.T, e); tsmcmc_compute_diagonals(L, ch.T, d); tsmcmc_compute_dihedral_angles(L, ch.T, a, def);
  put_d("le", e, n, U); put_d("ld", d, m, U); put_d("la", a, m, 1e4); vput(",\"def\":["); for (int i = 0; i < m; i++) vput("%s%d", i ? "," : "", def[i]); vput("]");
  free(def); free(e); free(d); free(a); free(f);
}
/* chain integrands */
static struct rec { int calls, k, arg, nv, badarg; double R, ftc, maxdev, maxr, sum, worst; double *val; } rc;
static double integrand(plCurve *L, void *args) {
  struct rec *r = args; int n = L->cp[0].nv; if (r != &rc) { rc.badarg = 1; return 0; } plc_vector *v = L->cp[0].vt;
  if (n != r->nv || L->nc != 1 || L->cp[0].open) r->maxdev = 1e9;
  for (int i = 0; i < n; i++) { double x = fabs(plc_distance(v[i], v[(i + 1) % n]) - (i == 0 && r->ftc > 0 ? r->ftc : 1)); if (!(x <= r->maxdev)) r->maxdev = x; x = plc_distance(v[0], v[i]); if (!(x <= r->maxr)) r->maxr = x; }
  double s = 0; if (r->k > 0) { plc_vector w = plc_vect_diff(v[(r->arg + r->k) % n], v[r->arg % n]); s = plc_dot_prod(w, w); } else if (r->k == 0) { for (int i = 0; i < n; i++) s += v[i].c[2] * (i + 1); } else s = plc_distance(v[0], v[-r->k]);
  r->val[r->calls++] = s; return s;
}

static int chain_command(void) {
  if (is("start")) {                      /* start what kind n seed x */
    drop_chain(); seed(ti(4)); double x = td(5); int n = ti(3); ch.T = make_tri(tok[2], n); ch.R = 0; ch.have = 1;
    if (!strcmp(tok[1], "regular")) tsmcmc_regular_ngon(ch.T, &ch.e, &ch.d, &ch.a);
    else if (!strcmp(tok[1], "equi")) tsmcmc_equilateral_ngon(rng, ch.T, &ch.e, &ch.d, &ch.a);
    else if (!strcmp(tok[1], "regftc")) tsmcmc_regular_failure_to_close_ngon(ch.T, x, &ch.e, &ch.d, &ch.a);
    else if (!strcmp(tok[1], "ftc")) tsmcmc_failure_to_close_ngon(rng, ch.T, x, &ch.e, &ch.d, &ch.a);
    else { ch.R = x; tsmcmc_confined_equilateral_ngon(rng, ch.T, x, &ch.e, &ch.d, &ch.a); }
    vput("{\"op\":\"start\",\"what\":\"%s\",\"x\":%ld,\"n\":%d,\"T\":", tok[1], q(x, U), n); put_tri(ch.T); put_state(); vput("}"); vflush();
  } else if (is("lens")) {                /* lens kind n seed unit edge... diag... : lengths as given, angles from the seed */
    drop_chain(); seed(ti(3)); int n = ti(2), w = 5 + n + n - 3; double u = td(4); tsmcmc_chord_t *g = calloc(n, sizeof *g); for (int i = 0; i < n - 3; i++) { g[i].vt[0] = ti(w + 2 * i); g[i].vt[1] = ti(w + 2 * i + 1); }
    ch.T = !strcmp(tok[1], "given") ? tsmcmc_generate_triangulation(n, g) : make_tri(tok[1], n); ch.have = 1; free(g);
    ch.e = calloc(n, sizeof(double)); ch.d = calloc(n, sizeof(double)); ch.a = calloc(n, sizeof(double));
    for (int i = 0; i < n; i++) ch.e[i] = ti(5 + i) * u; for (int i = 0; i < n - 3; i++) { ch.d[i] = ti(5 + n + i) * u; ch.a[i] = 6.28 * gsl_rng_uniform(rng); }
    vput("{\"op\":\"lens\",\"T\":"); put_tri(ch.T); put_state();
    vput(",\"ie\":["); for (int i = 0; i < n; i++) vput("%s%ld", i ? "," : "", ti(5 + i)); vput("],\"id\":["); for (int i = 0; i < n - 3; i++) vput("%s%ld", i ? "," : "", ti(5 + n + i)); vput("]");
    int r = 1 + n % 4; vput(",\"r\":%d,\"unit\":%d", r, u == 1);
    vput(",\"ok\":%d,\"cok\":%d,\"eq\":%d", tsmcmc_diagonals_ok(ch.T, ch.e, ch.d), tsmcmc_confined_diagonals_ok(ch.T, r * u, ch.e, ch.d, 0), tsmcmc_edgelengths_equilateral(ch.T, ch.e));
    plCurve *L = tsmcmc_embed_polygon(ch.T, ch.e, ch.d, ch.a); vput(",\"made\":%d", L != NULL);
    if (L) { put_embed(L); plc_free(L); } vput("}"); vflush();
  } else if (is("step")) {                /* step what seed beta delta repeat */
    seed(ti(2)); tsmcmc_step_t r = 0; int n = ch.T.nedges, m = ch.T.ndiags; const char *w = tok[1]; double beta = td(3), delta = td(4);
    double *e0 = copyd(ch.e, n), *d0 = copyd(ch.d, m), *a0 = copyd(ch.a, m);
    if (!strcmp(w, "mp")) tsmcmc_moment_polytope_step(rng, ch.T, ch.e, ch.d), r = moment_polytope;
    else if (!strcmp(w, "cmp")) tsmcmc_confined_moment_polytope_step(rng, ch.T, ch.R, ch.e, ch.d), r = moment_polytope;
    else if (!strcmp(w, "dih")) tsmcmc_dihedrals_step(rng, ch.T, ch.a), r = dihedral;
    else if (!strcmp(w, "perm")) tsmcmc_edgepermute_step(rng, ch.T, ch.e, ch.d, ch.a), r = permute;
    else if (!strcmp(w, "dd")) r = tsmcmc_dihedral_diagonal_step(rng, ch.T, ch.e, ch.d, ch.a, beta);
    else if (!strcmp(w, "ddp")) r = tsmcmc_dihedral_diagonal_permute_step(rng, ch.T, ch.e, ch.d, ch.a, beta, delta, ti(5));
    else r = tsmcmc_confined_dihedral_diagonal_step(rng, ch.T, ch.R, ch.e, ch.d, ch.a, beta, ti(5));
    vput("{\"op\":\"step\",\"w\":\"%s\",\"b\":%ld,\"dl_\":%ld,\"ret\":\"%s\",\"ee\":%d,\"de\":%d,\"ae\":%d", w, q(beta, 100), q(delta, 100), r == moment_polytope ? "mp" : r == dihedral ? "dih" : r == permute ? "perm" : "?",
         !memcmp(e0, ch.e, sizeof(double) * n), !memcmp(d0, ch.d, sizeof(double) * m), !memcmp(a0, ch.a, sizeof(double) * m));
    put_state();
    if (r == permute && n <= 9) {
      plCurve *A = tsmcmc_embed_polygon(ch.T, e0, d0, a0), *B = tsmcmc_embed_polygon(ch.T, ch.e, ch.d, ch.a); vput(",\"made\":%d", A && B);
      if (A && B) { put_gram(A, n, "g0", "t0"); put_gram(B, n, "g1", "t1"); } if (A) plc_free(A); if (B) plc_free(B);
    }
    vput("}"); vflush(); free(e0); free(d0); free(a0);
  } else if (is("embed")) {
    plCurve *L = tsmcmc_embed_polygon(ch.T, ch.e, ch.d, ch.a); vput("{\"op\":\"embed\",\"made\":%d", L != NULL);
    if (L) { put_embed(L); vput(",\"eok\":%d", tsmcmc_polygon_embedding_ok(L, ch.T, ch.e, ch.d, ch.a));
      double *x = copyd(ch.d, ch.T.ndiags); int bad = 0; if (ch.T.ndiags) { x[0] += 0.01; bad += tsmcmc_polygon_embedding_ok(L, ch.T, ch.e, x, ch.a); }
      double *y = copyd(ch.e, ch.T.nedges); y[ch.T.nedges - 1] -= 0.01; bad += tsmcmc_polygon_embedding_ok(L, ch.T, y, ch.d, ch.a); vput(",\"bad\":%d", bad); free(x); free(y); plc_free(L); }
    vput("}"); vflush();
  } else if (is("poly")) {                /* poly kind n seed x y z ... : an integral polygon, measured and placed again */
    drop_chain(); int n = ti(2); seed(ti(3)); ch.T = make_tri(tok[1], n); ch.have = 1; int cc = 0, m = ch.T.ndiags; bool op = false; plCurve *L = plc_new(1, &n, &op, &cc);
    for (int i = 0; i < n; i++) L->cp[0].vt[i] = plc_build_vect(ti(4 + 3 * i), ti(5 + 3 * i), ti(6 + 3 * i));
    plc_fix_wrap(L); ch.e = calloc(n, sizeof(double)); ch.d = calloc(n, sizeof(double)); ch.a = calloc(n, sizeof(double)); bool *def = calloc(n, sizeof(bool));
    tsmcmc_compute_edgelengths(L, ch.T, ch.e); tsmcmc_compute_diagonals(L, ch.T, ch.d); tsmcmc_compute_dihedral_angles(L, ch.T, ch.a, def);
    vput("{\"op\":\"poly\",\"T\":"); put_tri(ch.T); put_d("el", ch.e, n, 1e3); put_d("dl", ch.d, m, 1e3); put_d("da", ch.a, m, 1e3);
    vput(",\"def\":["); for (int i = 0; i < m; i++) vput("%s%d", i ? "," : "", def[i]); vput("],\"cs\":["); for (int i = 0; i < m; i++) vput("%s[%ld,%ld]", i ? "," : "", q(cos(ch.a[i]), 1e3), q(sin(ch.a[i]), 1e3)); vput("]");
    vput(",\"v\":["); for (int i = 0; i < n; i++) vput("%s[%ld,%ld,%ld]", i ? "," : "", ti(4 + 3 * i), ti(5 + 3 * i), ti(6 + 3 * i)); vput("]");
    plCurve *M = tsmcmc_embed_polygon(ch.T, ch.e, ch.d, ch.a); vput(",\"made\":%d", M != NULL);
    if (M) { vput(",\"D\":["); for (int i = 0; i < n; i++) { vput("%s[", i ? "," : ""); for (int j = 0; j < n; j++) { plc_vector w = plc_vect_diff(M->cp[0].vt[i], M->cp[0].vt[j]); vput("%s%ld", j ? "," : "", q(plc_dot_prod(w, w), 1e3)); } vput("]"); }
      vput("],\"vol\":["); for (int k = 3; k < n; k++) { plc_vector *v = M->cp[0].vt; vput("%s%ld", k > 3 ? "," : "", q(plc_dot_prod(plc_vect_diff(v[1], v[0]), plc_cross_prod(plc_vect_diff(v[2], v[0]), plc_vect_diff(v[k], v[0]))), 1e3)); } vput("]"); plc_free(M); }
    vput("}"); vflush(); free(def); plc_free(L);
  } else if (is("run")) {                 /* run what kind n seed x max burn beta delta repeat integrand arg stats log */
    double x = td(5), err = NAN; int n = ti(3), mx = ti(6); seed(ti(4)); memset(&rc, 0, sizeof rc); rc.nv = n; rc.k = ti(11); rc.arg = ti(12); rc.val = calloc(mx + 1, sizeof(double));
    tsmcmc_run_parameters rp; memset(&rp, 0, sizeof rp); rp.burn_in = ti(7); rp.beta = td(8); rp.delta = td(9); rp.moment_polytope_repeat = ti(10); rp.log_interval = 7; strcpy(rp.logfile_name, "log");
    tsmcmc_run_stats st; memset(&st, 0, sizeof st); char *txt = NULL; size_t len = 0; if (ti(14)) rp.logfile = open_memstream(&txt, &len);
    double v; tsmcmc_run_stats *sp = ti(13) ? &st : NULL; tsmcmc_triangulation_t T; int conf = !strcmp(tok[1], "confined"); if (!conf) T = make_tri(tok[2], n);
    if (conf) { rc.R = x; v = tsmcmc_confined_equilateral_expectation(rng, integrand, &rc, x, n, mx, 1000, rp, sp, &err); }
    else if (!strcmp(tok[1], "ftc")) { rc.ftc = x; v = tsmcmc_fixed_ftc_expectation(rng, integrand, &rc, x, mx, 1000, T, rp, sp, &err); }
    else v = tsmcmc_equilateral_expectation(rng, integrand, &rc, mx, 1000, T, rp, sp, &err);
    double berr = 0, bm = rc.calls ? ips_value(rc.val, rc.calls, &berr) : 0;
    vput("{\"op\":\"run\",\"what\":\"%s\",\"n\":%d,\"x\":%ld,\"max\":%d,\"burn\":%d,\"b\":%ld,\"dl_\":%ld,\"k\":%d,\"arg\":%d,\"calls\":%d,\"dev\":%ld,\"maxr\":%ld,\"badarg\":%d", tok[1], n, q(x, U), mx, rp.burn_in, q(rp.beta, 100), q(rp.delta, 100), rc.k, rc.arg, rc.calls, q(rc.maxdev, 1e7), q(rc.maxr, U), rc.badarg);
    vput(",\"diff\":%ld,\"errd\":%ld,\"mean\":%ld,\"err\":%ld", isfinite(v) ? q(v - bm, 1e8) : -2000000000L, isfinite(err) ? q(err - berr, 1e8) : isfinite(berr) ? -2000000000L : 0L, q(v, 1e4), isfinite(err) ? q(err, 1e4) : -1L);
    vput(",\"stats\":%ld,\"sd\":%d,\"sm\":%d,\"sp\":%d", ti(13), st.dihedral_steps, st.mp_steps, st.permute_steps);
    if (rp.logfile) { fclose(rp.logfile); int lines = 0, good = 0; double sum = 0; int upto = 0;
      for (char *p = txt, *e; p && *p; p = e + 1) { e = strchr(p, '\n'); if (!e) break; *e = 0; lines++; int s, a, b, c; 
        if (sscanf(p, "{ \"step number\"->%d, {\"nedges\"->%d, \"ntri\"->%d, \"ndiags\"->%d,", &s, &a, &b, &c) == 4 && a == n && b == n - 2 && c == n - 3 && s % 7 == 0) {
          int has = s > rp.burn_in ? s - rp.burn_in : 0; while (upto < has && upto < rc.calls) sum += rc.val[upto++];
          char *in = strstr(p, "\"integrand\"->"), *me = strstr(p, "\"sample mean\"->");
          if (in && me && (has == 0 || (fabs(strtod(in + 13, NULL) - rc.val[has - 1]) < 1e-4 * (1 + fabs(rc.val[has - 1])) && fabs(strtod(me + 15, NULL) - sum / has) < 1e-4 * (1 + fabs(sum / has))))) good++; } }
      vput(",\"lines\":%d,\"good\":%d", lines, good); free(txt); }
    else vput(",\"lines\":0,\"good\":0");
    char *s = tsmcmc_run_stats_MathematicaForm(st); vput(",\"mst\":"); put_numbers(s, 5, 0); free(s);
    memset(rp.logfile_name, 'x', 4000); rp.logfile_name[4000] = 0; s = tsmcmc_run_params_MathematicaForm(rp); vput(",\"mpl\":%d", strlen(s) > 4000 && strstr(s, "xxx") != NULL); free(s);
    vput("}"); vflush(); free(rc.val); if (!conf) tsmcmc_triangulation_free(T);
  } else if (is("mean")) {                /* mean steps seed : average diagonals over plain steps from the present state */
    int N = ti(1), m = ch.T.ndiags; seed(ti(2)); double **z = malloc(sizeof(double *) * m), *c = malloc(sizeof(double) * m), *er = malloc(sizeof(double) * m); for (int i = 0; i < m; i++) z[i] = malloc(sizeof(double) * N);
    double s1 = 0, s2 = 0;
    for (int k = 0; k < N; k++) { if (ch.R > 0) tsmcmc_confined_moment_polytope_step(rng, ch.T, ch.R, ch.e, ch.d); else tsmcmc_moment_polytope_step(rng, ch.T, ch.e, ch.d); for (int i = 0; i < m; i++) z[i][k] = ch.d[i];
      tsmcmc_dihedrals_step(rng, ch.T, ch.a); for (int i = 0; i < m; i++) { s1 += cos(ch.a[i]); s2 += sin(ch.a[i]); } }
    for (int i = 0; i < m; i++) c[i] = ips_value(z[i], N, &er[i]);
    vput("{\"op\":\"mean\",\"N\":%d,\"cs\":[%ld,%ld]", N, q(s1 / sqrt((double)N * m), 1e3), q(s2 / sqrt((double)N * m), 1e3)); put_d("avg", c, m, 1e3); put_d("err", er, m, 1e3); put_state(); vput("}"); vflush();
    for (int i = 0; i < m; i++) free(z[i]); free(z); free(c); free(er);
  } else return 0;
  return 1;
}
