/* transformations and measurements */

static long quarter(double a) { double q = a / 1.57079632679489661923, k = nearbyint(q); return fabs(q - k) < 1e-6 ? (long)k : 99; }

static int plcgeom(int r) {
  if (is("scale")) {                        /* scale r num den */
    plc_scale(R[r], td(2) / td(3)); head("scale", r); put_ints(2); tail(r, r);
  } else if (is("trans")) {                 /* trans r x y z */
    plc_translate(R[r], tv(2)); head("trans", r); put_args(2); tail(r, r);
  } else if (is("whitten")) {               /* whitten r mirror eps[nc] perm[2nc] */
    int nc = R[r]->nc, *eps = malloc(sizeof(int) * nc), *pm = malloc(sizeof(int) * 2 * nc);
    for (int i = 0; i < nc; i++) eps[i] = ti(3 + i);
    for (int i = 0; i < 2 * nc; i++) pm[i] = ti(3 + nc + i);
    plc_whitten(R[r], ti(2), eps, pm);
    head("whitten", r); vput("\"m\":%ld,\"eps\":[", ti(2));
    for (int i = 0; i < nc; i++) vput("%s%d", i ? "," : "", eps[i]);
    vput("],\"perm\":[");
    for (int i = 0; i < 2 * nc; i++) vput("%s%d", i ? "," : "", pm[i]);
    vput("]"); free(eps); free(pm); tail(r, r);
  } else if (is("rot") || is("proj") || is("rrot")) { /* rot r ax ay az m c s d: axis A/m, angle atan2(s/d, c/d) */
    plc_vector A = tv(2);
    double m = td(5);
    if (is("proj")) plc_project(R[r], A);
    else {
      plc_vector u = plc_build_vect(A.c[0] / m, A.c[1] / m, A.c[2] / m);
      if (is("rrot")) plc_random_rotate(R[r], u);
      else plc_rotate(R[r], u, atan2(td(7), td(6)));
    }
    head(tok[0], r); put_ints(2); tail(r, r);
  } else if (is("pfm")) {                   /* pfm r cp v0 v1 c s d */
    plc_pfm(R[r], ti(2), ti(3), ti(4), atan2(td(6), td(5)));
    head("pfm", r); put_ints(2); tail(r, r);
  } else if (is("perturb")) {               /* perturb r radius (units) */
    plc_perturb(R[r], td(2)); head("perturb", r); put_args(2); tail(r, r);
  } else if (is("nums")) {                  /* counting and numbering */
    plCurve *L = R[r]; int ce[64]; int e = plc_edges(L, ce), n = plc_num_verts(L);
    head("nums", r); vput("\"ne\":%d,\"e\":%d,\"e0\":%d,\"nv\":%d,\"ce\":[", plc_num_edges(L), e, plc_edges(L, NULL), n);
    for (int i = 0; i < L->nc; i++) vput("%s%d", i ? "," : "", ce[i]);
    vput("],\"num\":[");
    for (int i = 0; i < L->nc; i++) {
      vput("%s[", i ? "," : "");
      for (int k = -2 * L->cp[i].nv; k <= 2 * L->cp[i].nv; k++) vput("%s%d", k > -2 * L->cp[i].nv ? "," : "", plc_vertex_num(L, i, k));
      vput("]");
    }
    vput("],\"inv\":[");
    for (int k = 0; k < n; k++) vput("%s[%d,%d]", k ? "," : "", plc_cp_num(L, k), plc_vt_num(L, k));
    vput("]"); tail(r, -1);
  } else if (is("meas")) {                  /* lengths: curves whose edges have integer lengths */
    plCurve *L = R[r]; double cl[64], lo, sh, me, m2; double t = plc_arclength(L, cl); int V = plc_num_verts(L), E = plc_num_edges(L);
    head("meas", r); vput("\"len\":%ld,\"len0\":%ld,\"cl\":[", grid(t), grid(plc_arclength(L, NULL)));
    for (int i = 0; i < L->nc; i++) vput("%s%ld", i ? "," : "", grid(cl[i]));
    vput("],\"sub\":[");
    for (int i = 0; i < L->nc; i++) {
      vput("%s[", i ? "," : "");
      for (int a = 0; a < L->cp[i].nv; a++) { vput("%s[", a ? "," : ""); for (int b = 0; b < L->cp[i].nv; b++) vput("%s%ld", b ? "," : "", grid(plc_subarc_length(L, i, a, b))); vput("]"); }
      vput("]");
    }
    vput("],\"s\":[");
    for (int i = 0; i < L->nc; i++) { vput("%s[", i ? "," : ""); for (int a = 0; a < L->cp[i].nv; a++) vput("%s%ld", a ? "," : "", grid(plc_s(L, i, a))); vput("]"); }
    plc_edgelength_stats(L, &lo, &sh, &me, &m2);
    vput("],\"st\":[%ld,%ld,%ld,%ld]", grid(lo), grid(sh), grid(me * E), grid(m2 * E));
    double d = plc_pointset_diameter(L); plc_vector c = plc_center_of_mass(L);
    vput(",\"dia2\":%ld,\"com\":", grid(d * d)); putv(plc_scale_vect(V, c));
    vput(",\"gyr\":%ld,\"chord\":[", grid(plc_gyradius(L) * V * V));
    for (int i = 0; i < L->nc; i++) {
      int nv = L->cp[i].nv, sk[64], n = 0; for (int k = 1; k < nv && n < 60; k++) sk[n++] = k;
      double *m = plc_mean_squared_chordlengths(L, i, sk, n);
      vput("%s[", i ? "," : ""); for (int k = 0; k < n; k++) vput("%s%ld", k ? "," : "", grid(m[k] * (L->cp[i].open ? nv - sk[k] : nv))); vput("]");
      free(m);
    }
    vput("],\"mr\":[");                    /* (curvature times the shorter edge times (product of the lengths + scalar product)) squared */
    for (int i = 0; i < L->nc; i++) {
      vput("%s[", i ? "," : "");
      for (int a = 0; a < L->cp[i].nv; a++) {
        double q = 1, z;
        if (!(L->cp[i].open && (a == 0 || a == L->cp[i].nv - 1))) {
          plc_vector *v = L->cp[i].vt; double p = 0, n = 0, d = 0;
          for (int k = 0; k < 3; k++) { double e = v[a].c[k] - v[a-1].c[k], f = v[a+1].c[k] - v[a].c[k]; p += e * e; n += f * f; d += e * f; }
          q = sqrt(p < n ? p : n) * (sqrt(p) * sqrt(n) + d);
        }
        z = q < 1e-6 ? -1 : pow(plc_MR_curvature(L, i, a) * q, 2); vput("%s%ld", a ? "," : "", fabs(z - nearbyint(z)) < 1e-6 ? lround(z) : -9L);
      }
      vput("]");
    }
    vput("]"); int sv = ix; tail(r, -1); ix = sv;
  } else if (is("angles")) {                /* lattice curves: every angle is a multiple of a right angle */
    plCurve *L = R[r]; double ck[64], ct[64]; double k = plc_totalcurvature(L, ck), t = plc_totaltorsion(L, ct);
    head("angles", r); vput("\"k\":[%ld,%ld],\"t\":[%ld,%ld],\"ck\":[", quarter(k), quarter(plc_totalcurvature(L, NULL)), quarter(t), quarter(plc_totaltorsion(L, NULL)));
    for (int i = 0; i < L->nc; i++) vput("%s%ld", i ? "," : "", quarter(ck[i]));
    vput("],\"ct\":[");
    for (int i = 0; i < L->nc; i++) vput("%s%ld", i ? "," : "", quarter(ct[i]));
    vput("],\"turn\":[");
    for (int i = 0; i < L->nc; i++) {
      vput("%s[", i ? "," : "");
      for (int a = 0; a < L->cp[i].nv; a++) { bool ok = true; vput("%s%ld", a ? "," : "", quarter(plc_turning_angle(L, i, a, &ok))); }
      vput("]");
    }
    vput("],\"tan\":[");
    for (int i = 0; i < L->nc; i++) {
      vput("%s[", i ? "," : "");
      for (int a = 0; a < L->cp[i].nv; a++) { bool ok = true; vput("%s", a ? "," : ""); putv(plc_mean_tangent(L, i, a, &ok)); }
      vput("]");
    }
    vput("]"); tail(r, -1);
  } else return 0;
  return 1;
}
