/* ---- triangulations ---- */
static const char *ty(chordtype_t t) { return t == diagonal ? "d" : t == edge ? "e" : "?"; }
static void put_chords(const tsmcmc_chord_t *c, int n) { vput("["); for (int i = 0; i < n; i++) vput("%s[%d,%d]", i ? "," : "", c[i].vt[0], c[i].vt[1]); vput("]"); }
static void put_tri(tsmcmc_triangulation_t T) {
  vput("{\"n\":%d,\"d\":", T.nedges); put_chords(T.diags, T.ndiags); vput(",\"e\":"); put_chords(T.edges, T.nedges); vput(",\"t\":[");
  for (int i = 0; i < T.ntri; i++) { tsmcmc_triangle_t *t = &T.triangles[i];
    vput("%s{\"pc\":%d,\"pt\":\"%s\",\"dc\":[%d,%d],\"dt\":[\"%s\",\"%s\"],\"dn\":[%d,%d]}", i ? "," : "", t->parent_chord, ty(t->parent_type),
         t->daughter_chord[0], t->daughter_chord[1], ty(t->daughter_type[0]), ty(t->daughter_type[1]), t->daughter_tri[0], t->daughter_tri[1]); }
  vput("]}");
}
static void put_numbers(const char *s, int group, int rows) {   /* the numbers of a text, in groups */
  int n = 0; vput("[");
  while (*s) {
    if ((*s >= '0' && *s <= '9') || *s == '-') { char *e; double x = strtod(s, &e); if (e == s) { s++; continue; } vput("%s%s%ld", n && n % group == 0 ? "]," : n ? "," : "", n % group == 0 ? "[" : "", q(x, 1)); n++; s = e; }
    else s++;
  }
  if (n) vput("]"); vput("]"); (void)rows;
}
static tsmcmc_triangulation_t make_tri(const char *kind, int n) {
  return !strcmp(kind, "fan") ? tsmcmc_fan_triangulation(n) : !strcmp(kind, "spiral") ? tsmcmc_spiral_triangulation(n)
       : !strcmp(kind, "teeth") ? tsmcmc_teeth_triangulation(n) : tsmcmc_random_triangulation(rng, n);
}
static void show_tri(const char *kind, int n, tsmcmc_chord_t *c, tsmcmc_triangulation_t T) {
  vput("{\"op\":\"tri\",\"kind\":\"%s\",\"n\":%d,\"ok\":%d,\"s\":", kind, n, tsmcmc_triangulation_ok(T)); put_chords(c, c ? n - 3 : 0);
  vput(",\"T\":"); put_tri(T);
  char *txt; size_t len; FILE *f = open_memstream(&txt, &len); tsmcmc_triangulation_print(f, T); fclose(f);
  vput(",\"print\":"); put_numbers(txt, 2, n - 3); free(txt);
  txt = tsmcmc_triangulation_MathematicaForm(T); vput(",\"math\":"); put_numbers(txt, 2, n - 3); free(txt);
  double *el = malloc(sizeof(double) * n); vput(",\"len\":["); for (int i = 0; i < n; i++) { el[i] = 1 + (i * 7) % 5; vput("%s%ld", i ? "," : "", q(el[i], 1)); } vput("]");
  for (int k = 0; k < 2; k++) {
    f = open_memstream(&txt, &len); tsmcmc_triangulation_polymake(f, T, el, k == 0); fclose(f);
    vput(k ? ",\"polyf\":" : ",\"poly\":"); char *b = strstr(txt, "=>"); put_numbers(b ? b + 2 : txt, n - 2, 0); free(txt);
  }
  free(el); vput(",\"find\":["); int k = 0;
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b && (n < 9 || (a * 31 + b * 17) % 7 == 0)) vput("%s[%d,%d,%d]", k++ ? "," : "", a, b, tsmcmc_triangulation_chordnum(T, a, b));
  vput("]}"); vflush();
}
static int tri_command(void) {
  if (is("tri")) {                       /* tri kind n seed */
    int n = ti(2); seed(ti(3)); tsmcmc_triangulation_t T = make_tri(tok[1], n); show_tri(tok[1], n, NULL, T); tsmcmc_triangulation_free(T);
  } else if (is("chords")) {             /* chords n a b ... */
    int n = ti(1), k = (ntok - 2) / 2; tsmcmc_chord_t *c = calloc(k + 1, sizeof *c);
    for (int i = 0; i < k; i++) { c[i].vt[0] = ti(2 + 2 * i); c[i].vt[1] = ti(3 + 2 * i); }
    tsmcmc_triangulation_t T = tsmcmc_generate_triangulation(n, c); show_tri("given", n, c, T); tsmcmc_triangulation_free(T); free(c);
  } else if (is("csok")) {               /* csok a b ... */
    int k = (ntok - 1) / 2; tsmcmc_chord_t *c = calloc(k + 1, sizeof *c);
    for (int i = 0; i < k; i++) { c[i].vt[0] = ti(1 + 2 * i); c[i].vt[1] = ti(2 + 2 * i); }
    vput("{\"op\":\"csok\",\"ok\":%d,\"s\":", tsmcmc_chord_system_ok(k, c)); put_chords(c, k); vput("}"); vflush(); free(c);
  } else if (is("bad")) {                /* bad kind n seed damage place */
    int n = ti(2), w = ti(5); seed(ti(3)); tsmcmc_triangulation_t T = make_tri(tok[1], n); tsmcmc_triangle_t *t = &T.triangles[w % T.ntri];
    switch (ti(4)) {
      case 0: { tsmcmc_chord_t *c = &T.diags[w % T.ndiags]; int x = c->vt[0]; c->vt[0] = c->vt[1]; c->vt[1] = x; break; }
      case 1: T.diags[w % T.ndiags].vt[w & 1] = n; break;
      case 2: T.edges[w % n].vt[w & 1] = -1; break;
      case 3: t->daughter_chord[w & 1] = n; break;
      case 4: t->parent_chord = -1; break;
      case 5: { int x = t->daughter_chord[0]; t->daughter_chord[0] = t->daughter_chord[1]; t->daughter_chord[1] = x; chordtype_t y = t->daughter_type[0]; t->daughter_type[0] = t->daughter_type[1]; t->daughter_type[1] = y; break; }
      case 6: T.ntri--; break;
      case 7: t->daughter_tri[w & 1] = T.ntri; break;
      case 8: for (int i = 0; i < T.ntri; i++) for (int k = 0; k < 2; k++) if (T.triangles[i].daughter_tri[k] > 0) { T.triangles[i].daughter_tri[k] = -1; goto out; } break;
      case 10: t->daughter_chord[w & 1] = T.ndiags; t->daughter_type[w & 1] = diagonal; break;
      case 11: t->daughter_chord[w & 1] = n; t->daughter_type[w & 1] = edge; break;
      case 12: t->parent_chord = T.ndiags; t->parent_type = diagonal; break;
      case 13: t->daughter_tri[w & 1] = -2; break;
      case 14: t->parent_type = t->parent_type == edge ? diagonal : edge; break;
      case 15: T.edges[w % n].vt[w & 1] = n; break;
      case 16: T.diags[w % T.ndiags].vt[w & 1] = -1; break;
      case 17: T.ndiags--; break;
      case 18: t->daughter_type[w & 1] = t->daughter_type[w & 1] == edge ? diagonal : edge; break;
      case 19: t->daughter_chord[w & 1] = (t->daughter_chord[w & 1] + 1) % (t->daughter_type[w & 1] == edge ? n : T.ndiags); break;
      case 20: t->parent_chord = (t->parent_chord + 1) % (t->parent_type == edge ? n : T.ndiags); break;
      case 21: T.diags[w % T.ndiags].vt[w & 1] = (T.diags[w % T.ndiags].vt[w & 1] + 1) % n; break;
      case 22: T.ntri++; break;
      case 23: T.nedges++; break;
      case 24: for (int i = T.ntri - 1; i >= 0; i--) for (int k = 0; k < 2; k++) if (T.triangles[i].daughter_tri[k] > 0) { T.triangles[i].daughter_tri[k] = T.triangles[i].daughter_tri[k] == 1 ? 2 : 1; goto out; } break;
      default: T.edges[w % n].vt[1] = (T.edges[w % n].vt[1] + 1) % n;
    }
    out: vput("{\"op\":\"bad\",\"kind\":%ld,\"ok\":%d}", ti(4), tsmcmc_triangulation_ok(T)); vflush(); tsmcmc_triangulation_free(T);
  } else return 0;
  return 1;
}
