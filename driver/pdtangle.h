/* Tangles: the crossings of a mask, cut out along their boundary.  dart = 4*crossing + position. */
static int tg_mate(pd_code_t *pd, int d) {
  pd_edge_t e = pd->edge[pd->cross[d / 4].edge[d % 4]];
  int h = 4 * e.head + e.headpos, t = 4 * e.tail + e.tailpos;
  return d == t ? h : t;
}
static int tg_edge(pd_code_t *pd, int d) { return pd->cross[d / 4].edge[d % 4]; }
static bool tg_out(pd_code_t *pd, int d) { pd_edge_t e = pd->edge[tg_edge(pd, d)]; return d == (int)(4 * e.tail + e.tailpos); }
#define TG_CCW(d) ((d) / 4 * 4 + ((d) + 1) % 4)
#define TG_CW(d) ((d) / 4 * 4 + ((d) + 3) % 4)
static bool tg_in(unsigned long m, int d) { return (m >> (d / 4)) & 1; }
/* the darts of the mask's crossings through which edges leave, counterclockwise; 0 when the boundary is not one circle */
static int tg_boundary(pd_code_t *pd, unsigned long m, int start, int *I) {
  int cut[1024], nc = 0, k = 0;
  for (int d = 0; d < (int)(4 * pd->ncross); d++) if (tg_in(m, d) && !tg_in(m, tg_mate(pd, d))) cut[nc++] = d;
  if (!nc) return 0;
  int d0 = cut[start % nc], d = d0;
  do {
    I[k++] = d; d = TG_CCW(d);
    while (tg_in(m, tg_mate(pd, d))) d = TG_CCW(tg_mate(pd, d));
  } while (d != d0 && k < nc);
  return (d == d0 && k == nc) ? k : 0;
}
/* connected inside and outside */
static bool tg_conn(pd_code_t *pd, unsigned long m) {
  unsigned long s = m & -m, o;
  if (!m) return false;
  do { o = s; for (pd_idx_t c = 0; c < pd->ncross; c++) if ((s >> c) & 1) for (int p = 0; p < 4; p++) { int q = tg_mate(pd, 4 * c + p); if (tg_in(m, q)) s |= 1ul << (q / 4); } } while (o != s);
  return s == m;
}
static pd_tangle_t *tg_make(pd_code_t *pd, int k, int *I) {
  pd_tangle_t *t = pd_tangle_new(k);
  for (int i = 0; i < k; i++) {
    pd_idx_t pf, pp, nf, np; t->edge[i] = tg_edge(pd, I[i]);
    pd_face_and_pos(pd, t->edge[i], &pf, &pp, &nf, &np);
    t->face[i] = tg_out(pd, I[i]) ? nf : pf;       /* the face clockwise of the outgoing dart */
  }
  return t;
}
static void put_ints(const char *k, int n, pd_idx_t *v) { vput(",\"%s\":[", k); for (int i = 0; i < n; i++) vput("%s%ld", i ? "," : "", (long)(v[i] == PD_UNSET_IDX ? -1 : (long)v[i])); vput("]"); }
static void put_tangle(pd_code_t *pd, pd_tangle_t *t) {
  put_ints("te", t->nedges, t->edge); put_ints("tf", t->nedges, t->face);
  vput(",\"or\":["); for (pd_idx_t i = 0; i < t->nedges; i++) vput("%s%d", i ? "," : "", t->edge_bdy_or[i] == in ? 1 : t->edge_bdy_or[i] == out ? 0 : 2); vput("]");
  vput(",\"or2\":["); for (pd_idx_t i = 0; i < t->nedges; i++) { pd_boundary_or_t o = pd_tangle_bdy_or(pd, t, t->edge[i]); vput("%s%d", i ? "," : "", o == in ? 1 : o == out ? 0 : 2); } vput("]");
  vput(",\"st\":["); for (pd_idx_t i = 0; i < t->nstrands; i++) vput("%s[%ld,%ld,%ld,%ld]", i ? "," : "", (long)t->strand[i].start_edge, (long)t->strand[i].end_edge, (long)t->strand[i].nedges, (long)t->strand[i].comp); vput("]");
  put_ints("ic", t->ninterior_cross, t->interior_cross); put_ints("ie", t->ninterior_edges, t->interior_edge);
}
static void tg_one(int r, unsigned long m, int start, unsigned pick) {
  pd_code_t *pd = R[r]; int I[1024], k; long S[1] = {r};
  unsigned long all = (1ul << pd->ncross) - 1;
  m &= all;
  if (!m || m == all || !tg_conn(pd, m) || !tg_conn(pd, all & ~m)) return;
  k = tg_boundary(pd, m, start, I);
  watch(pd);
  pd_tangle_t *t = tg_make(pd, k, I);
  int err = 0;
  if (start % 2) pd_regenerate_tangle(pd, t); else pd_regenerate_tangle_err(pd, t, &err);
  ev_begin("tangle"); ev_srcs(-1, 1, S);
  vput(",\"m\":["); for (int c = 0, f = 1; c < (int)pd->ncross; c++) if ((m >> c) & 1) { vput("%s%d", f ? "" : ",", c); f = 0; } vput("]");
  vput(",\"err\":%d,\"okv\":%d", err, pd_tangle_ok(pd, t)); put_tangle(pd, t); ev_same(); ev_end();
  /* every strand running just outside the boundary across consecutive cut edges */
  for (int j = 0; j < k; j++) {
    int o = tg_mate(pd, I[j]);
    bool left = tg_out(pd, TG_CW(o));            /* the tangle is on the left of the strand */
    pd_idx_t ov[64], bf[64]; int n = 1;
    ov[0] = tg_edge(pd, left ? TG_CCW(o) : TG_CW(o));
    for (int i = 0; i < k && n < 60; i++) {
      int ii = left ? (j + i) % k : (j - i + 2 * k) % k;
      int q = tg_mate(pd, I[ii]);
      int ind = left ? TG_CCW(q) : TG_CW(q), outd = left ? TG_CW(q) : TG_CCW(q);
      if (!tg_out(pd, outd) || tg_edge(pd, ind) != (int)ov[n - 1] || tg_in(m, q)) break;
      /* over at all of them or under at all of them */
      pd_idx_t a, b, a0; pd_overstrand(pd, q / 4, &a, &b); pd_overstrand(pd, pd->edge[ov[0]].head, &a0, &b);
      if ((a == ov[n - 1]) != (a0 == ov[0])) break;
      ov[n++] = tg_edge(pd, outd);
      for (int w = 0; w < n; w++) { pd_idx_t pf, pp, nf, np; pd_face_and_pos(pd, ov[w], &pf, &pp, &nf, &np); bf[w] = left ? pf : nf; }
      pd_idx_t np = 0; pd_code_t **pc = NULL; int e2 = 0; long A[3] = {j, n - 1, left};
      watch(pd);
      pd_tangle_slide_err(pd, t, n, ov, bf, &np, &pc, &e2);
      if (e2) np = 0;
      ev_begin("slide"); ev_srcs(-1, 1, S);
      vput(",\"m\":["); for (int c = 0, f = 1; c < (int)pd->ncross; c++) if ((m >> c) & 1) { vput("%s%d", f ? "" : ",", c); f = 0; } vput("]");
      put_ints("te", t->nedges, t->edge); put_ints("tf", t->nedges, t->face); put_ints("ov", n, ov); put_ints("bf", n, bf);
      ev_ints("a", 3, A); vput(",\"err\":%d", e2); ev_same(); ev_out(np, pc); ev_end();
      for (pd_idx_t w = 0; w < np; w++) pd_code_free(&pc[w]);
      free(pc);
    }
  }
  pd_tangle_free(&t);
}
static void tangle_command(void) {
  int r = ti(1);
  if (R[r]->ncross > 60 || R[r]->ncross == 0) return;
  if (!strcmp(tok[0], "tangle")) tg_one(r, strtoul(tok[2], NULL, 10), ti(3), 0);
  else if (!strcmp(tok[0], "tangleg")) {        /* tangleg r seed size: a connected set grown from a crossing */
    pd_code_t *pd = R[r]; unsigned long x = strtoul(tok[2], NULL, 10), m = 1ul << (x % pd->ncross); int want = ti(3);
    for (int k = 1, tries = 0; k < want && tries < 4000; tries++) {
      x = x * 6364136223846793005ul + 1442695040888963407ul;
      int d = (x >> 33) % (4 * pd->ncross);
      if (tg_in(m, d)) { int q = tg_mate(pd, d); if (!tg_in(m, q)) { m |= 1ul << (q / 4); k++; } }
    }
    /* fill the holes, so that the rest is connected */
    unsigned long all = (1ul << pd->ncross) - 1, rest = all & ~m, best = 0;
    while (rest) {
      unsigned long p = rest & -rest, o;
      do { o = p; for (pd_idx_t c = 0; c < pd->ncross; c++) if ((p >> c) & 1) for (int i = 0; i < 4; i++) { int q = tg_mate(pd, 4 * c + i); if (!tg_in(m, q)) p |= 1ul << (q / 4); } } while (o != p);
      if (__builtin_popcountl(p) > __builtin_popcountl(best)) best = p;
      rest &= ~p;
    }
    tg_one(r, all & ~best, (int)(x >> 40) % 50, 0);
  }
  else if (!strcmp(tok[0], "overall")) {        /* overall r seed: a run of crossings along a component becomes over (or under) crossings */
    pd_code_t *pd = R[r]; long x = ti(2); bool over = x % 2; pd_idx_t e = (pd_idx_t)(x * 7) % pd->nedges;
    for (pd_idx_t i = 0; i < pd->ncross; i++, e = pd_next_edge(pd, e)) {
      pd_idx_t a, b, c = pd->edge[e].head; pd_overstrand(pd, c, &a, &b);
      if ((a == e) != over) pd->cross[c].sign = pd->cross[c].sign == PD_POS_ORIENTATION ? PD_NEG_ORIENTATION : PD_POS_ORIENTATION;
    }
    ev_begin("load"); vput(",\"r\":%d", r); ev_out(1, &R[r]); ev_end();
  }
  else for (unsigned long m = 1; m < (1ul << R[r]->ncross); m++) tg_one(r, m, ti(2), 0);    /* tangles r start */
}
